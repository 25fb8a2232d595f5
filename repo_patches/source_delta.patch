From 66c7d65e9a837a6b2e30f85bcf5187675e5e63de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 01/70] fix: report I/O failures while sorting files and never
 reuse existing file names for chunks

---
 src/util/text_file_sorter.hpp | 80 ++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index c124f9b..1885ffa 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -26,8 +26,6 @@ namespace happyml {
         // at least in the case where the given is in the file before the expected
         // values.
         static bool sort(const std::string &file_name, const std::string &result_file_name, bool has_header = true, int chunk_size = 10000, bool delete_duplicates = true) {
-            auto parent_path = std::filesystem::path(file_name).parent_path().string();
-
             std::ifstream input(file_name);
 
             if (!input.is_open()) {
@@ -42,48 +40,33 @@ namespace happyml {
                 std::getline(input, header);
             }
 
-            size_t chunk_counter = 0;
             std::vector<std::string> chunk_paths;
-            while (std::getline(input, line)) {
+            bool success = true;
+            while (success && std::getline(input, line)) {
                 if (!line.empty()) {
                     lines.push_back(line);
                 }
 
                 if (lines.size() >= chunk_size) {
-                    sort_chunk(lines);
-
-                    std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
-                    std::ofstream chunk_output(chunk_path);
-                    chunk_paths.push_back(chunk_path);
-                    for (const auto &sorted_line: lines) {
-                        chunk_output << sorted_line << '\n';
-                    }
-                    chunk_output.close();
-
-                    ++chunk_counter;
+                    success = write_chunk(lines, result_file_name, chunk_paths);
                     lines.clear();
                 }
             }
+            success = success && !input.bad();
 
-            if (!lines.empty()) {
-                sort_chunk(lines);
-
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
-                std::ofstream chunk_output(chunk_path);
-                chunk_paths.push_back(chunk_path);
-                for (const auto &sorted_line: lines) {
-                    chunk_output << sorted_line << '\n';
-                }
-                chunk_output.close();
-                ++chunk_counter;
+            if (success && !lines.empty()) {
+                success = write_chunk(lines, result_file_name, chunk_paths);
             }
 
             input.close();
-            merge_chunks(parent_path, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            success = success && merge_chunks(chunk_paths, result_file_name, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
-            return true;
+            if (!success) {
+                std::cerr << "Error sorting " << file_name << std::endl;
+            }
+            return success;
         }
 
     private:
@@ -91,19 +74,43 @@ namespace happyml {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &parent_path, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        // chunks live beside the result file, under names that no existing file has.
+        static std::string next_chunk_path(const std::string &result_file_name, size_t chunk_number) {
+            std::string base = result_file_name + ".chunk_" + std::to_string(chunk_number);
+            std::string chunk_path = base + ".tmp";
+            for (size_t attempt = 1; std::filesystem::exists(chunk_path); ++attempt) {
+                chunk_path = base + "_" + std::to_string(attempt) + ".tmp";
+            }
+            return chunk_path;
+        }
+
+        static bool write_chunk(std::vector<std::string> &lines, const std::string &result_file_name, std::vector<std::string> &chunk_paths) {
+            sort_chunk(lines);
+
+            std::string chunk_path = next_chunk_path(result_file_name, chunk_paths.size());
+            std::ofstream chunk_output(chunk_path);
+            if (!chunk_output.is_open()) {
+                return false;
+            }
+            chunk_paths.push_back(chunk_path);
+            for (const auto &sorted_line: lines) {
+                chunk_output << sorted_line << '\n';
+            }
+            chunk_output.close();
+            return chunk_output.good();
+        }
+
+        static bool merge_chunks(const std::vector<std::string> &chunk_paths, const std::string &output_file, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
-            std::vector<std::ifstream> chunk_files(num_chunks);
-
-            for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(i) + ".txt";
+            std::vector<std::ifstream> chunk_files(chunk_paths.size());
 
-                chunk_files[i].open(chunk_path);
+            for (size_t i = 0; i < chunk_paths.size(); ++i) {
+                chunk_files[i].open(chunk_paths[i]);
 
                 if (!chunk_files[i]) {
-                    break;
+                    return false;
                 }
 
                 std::string line;
@@ -150,9 +157,12 @@ namespace happyml {
                 }
             }
             output.close();
+            bool success = output.good();
             for (auto &chunk_file: chunk_files) {
+                success = success && !chunk_file.bad();
                 chunk_file.close();
             }
+            return success;
         }
     };
 }
-- 
2.43.0


From ca5c22b09a36b02997544bc41722587da456687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 02/70] fix: deliver every file of a directory and report
 unreadable files when reading text lines

---
 src/util/file_reader.hpp | 42 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..f17ee30 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -71,27 +71,23 @@ namespace happyml {
                     next_line = "";
                 } else {
                     string line;
-                    if (getline(stream, line)) {
-                        next_line = line;
-                    } else {
+                    while (!readLine(line)) {
+                        // this file is exhausted (or had no lines), so move to the next one
                         stream.close();
                         current_file++;
-                        if (current_file < filenames.size()) {
-                            stream.open(filenames[current_file]);
-                            if (skip_header) {
-                                skipHeader();
-                            }
-                            if (getline(stream, line)) {
-                                next_line = line;
-                            } else {
-                                has_next = false;
-                                next_line = "";
-                            }
-                        } else {
+                        if (current_file >= filenames.size()) {
                             has_next = false;
-                            next_line = "";
+                            break;
+                        }
+                        stream.open(filenames[current_file]);
+                        if (!stream.is_open()) {
+                            throw runtime_error("Could not open file " + filenames[current_file]);
+                        }
+                        if (skip_header) {
+                            skipHeader();
                         }
                     }
+                    next_line = has_next ? line : "";
                 }
             }
             return result;
@@ -102,11 +98,19 @@ namespace happyml {
         }
 
     private:
+        bool readLine(string &line) {
+            if (getline(stream, line)) {
+                return true;
+            }
+            if (stream.bad()) {
+                throw runtime_error("Could not read file " + filenames[current_file]);
+            }
+            return false;
+        }
+
         void skipHeader() {
             string line;
-            if (!stream.is_open() || !getline(stream, line)) {
-                has_next = false;
-            }
+            readLine(line);
         }
 
         vector<string> filenames;
-- 
2.43.0


From fd88f5b4281e56b43907a9b50ebf5cc13387a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 03/70] fix: round-trip numeric-looking and quoted fields and
 report failed writes of delimited text

---
 src/training_data/data_encoder.hpp |  2 +-
 src/util/file_reader.hpp           | 10 ++++------
 src/util/file_writer.hpp           |  5 ++++-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index f23d72d..0403239 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -64,7 +64,7 @@ namespace happyml {
     bool isFloat(const string &text) {
         float value = 0.0;
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     class HappyMLVariantEncoder {
diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index f17ee30..817090f 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -186,13 +186,8 @@ namespace happyml {
         }
 
         string decode(string &current_word) const {
+            // nextRecord has already removed the enclosing quotes and undoubled the inner ones
             auto stripped_column = strip(current_word);
-            auto stripped_column_length = stripped_column.length();
-            if (stripped_column_length > 0 && stripped_column[0] == '"' &&
-                stripped_column[stripped_column_length - 1] == '"') {
-                stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-            }
-            string_replace_all(stripped_column, "\"\"", "\"");
             stripped_column = TextEncoderDecoder::decodeString(stripped_column, delimiter_);
             return stripped_column;
         }
@@ -524,6 +519,9 @@ namespace happyml {
     vector<vector<string>> read_config(const string &directory, const string &file_name) {
         string modelProperties = directory + "/" + file_name;
         auto reader = make_unique<DelimitedTextFileReader>(modelProperties, ':');
+        if (!reader->is_open()) {
+            throw runtime_error("Could not read " + modelProperties);
+        }
         vector<vector<string>> metadata;
         while (reader->hasNext()) {
             metadata.push_back(reader->nextRecord());
diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 5f3d66b..16650d8 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -43,6 +43,9 @@ namespace happyml {
                 throw runtime_error("File is closed.");
             }
             stream_ << line << endl;
+            if (!stream_) {
+                throw runtime_error("Could not write to file " + filename_);
+            }
         }
 
         bool is_open() {
@@ -74,7 +77,7 @@ namespace happyml {
                 auto stripped_column = strip(column);
                 auto stripped_column_length = stripped_column.length();
                 if (stripped_column_length > 0) {
-                    if (stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
+                    if (stripped_column_length > 1 && stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
                         stripped_column = stripped_column.substr(1, stripped_column_length - 2);
                         string_replace_all(stripped_column, "\"", "\"\"");
                         auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-- 
2.43.0


From ea68b7ee016f7743a9eaf3303a8c271b48576b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 04/70] fix: fail when a tensor cannot be read or saved
 completely

---
 src/ml/layers/bias_layer.hpp                 | 4 +++-
 src/ml/layers/convolution_2d_valid_layer.hpp | 4 +++-
 src/ml/layers/fully_connected_layer.hpp      | 4 +++-
 src/types/base_tensors.hpp                   | 4 ++++
 src/types/tensor_impls/full_tensor.hpp       | 2 ++
 src/types/tensor_impls/half_tensor.hpp       | 2 ++
 src/types/tensor_impls/pixel_tensor.hpp      | 2 ++
 src/types/tensor_impls/quarter_tensor.hpp    | 2 ++
 src/types/tensor_impls/tensor_allocators.hpp | 9 +++++++++
 9 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/ml/layers/bias_layer.hpp b/src/ml/layers/bias_layer.hpp
index 05c07c5..fb58654 100644
--- a/src/ml/layers/bias_layer.hpp
+++ b/src/ml/layers/bias_layer.hpp
@@ -32,7 +32,9 @@ namespace happyml {
 
         void saveKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            bias->save(path);
+            if (!bias->save(path)) {
+                throw runtime_error("Could not save " + path);
+            }
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..befdd42 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -38,7 +38,9 @@ namespace happyml {
             auto filters = outputShape[2];
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
                 string path = fullKnowledgePath + "/" + label + "_" + asString(next_weight_layer) + ".tensor";
-                weights[next_weight_layer]->save(path);
+                if (!weights[next_weight_layer]->save(path)) {
+                    throw runtime_error("Could not save " + path);
+                }
             }
         }
 
diff --git a/src/ml/layers/fully_connected_layer.hpp b/src/ml/layers/fully_connected_layer.hpp
index b41ce0f..5342fa0 100644
--- a/src/ml/layers/fully_connected_layer.hpp
+++ b/src/ml/layers/fully_connected_layer.hpp
@@ -38,7 +38,9 @@ namespace happyml {
 
         void saveKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            weights->save(path);
+            if (!weights->save(path)) {
+                throw runtime_error("Could not save " + path);
+            }
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..4ebe0b8 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -159,6 +159,10 @@ namespace happyml {
                 stream.open(fileName, std::ofstream::out | ios::binary | ios::trunc);
                 save(stream);
                 stream.close();
+                if (!stream) {
+                    cerr << "Failed to save: " << fileName << endl;
+                    return false;
+                }
                 return true;
             } catch (ofstream::failure &e) {
                 // I was torn about catching an exception and returning true/false
diff --git a/src/types/tensor_impls/full_tensor.hpp b/src/types/tensor_impls/full_tensor.hpp
index c1fce49..594e495 100644
--- a/src/types/tensor_impls/full_tensor.hpp
+++ b/src/types/tensor_impls/full_tensor.hpp
@@ -176,6 +176,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorWasRead(stream);
 
             assignBodyFromStream(stream, rows, columns, channels);
         }
@@ -193,6 +194,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorWasRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/half_tensor.hpp b/src/types/tensor_impls/half_tensor.hpp
index a2b3cb0..d467c6e 100644
--- a/src/types/tensor_impls/half_tensor.hpp
+++ b/src/types/tensor_impls/half_tensor.hpp
@@ -109,6 +109,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorWasRead(stream);
 
             data.resize(channels);
             for (size_t channel = 0; channel < channels; channel++) {
@@ -122,6 +123,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorWasRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/pixel_tensor.hpp b/src/types/tensor_impls/pixel_tensor.hpp
index b3530fd..a86e917 100644
--- a/src/types/tensor_impls/pixel_tensor.hpp
+++ b/src/types/tensor_impls/pixel_tensor.hpp
@@ -135,6 +135,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorWasRead(stream);
 
             assignBodyFromStream(stream, rows, columns, channels);
         }
@@ -152,6 +153,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorWasRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/quarter_tensor.hpp b/src/types/tensor_impls/quarter_tensor.hpp
index 3f05ab3..597d08b 100644
--- a/src/types/tensor_impls/quarter_tensor.hpp
+++ b/src/types/tensor_impls/quarter_tensor.hpp
@@ -124,6 +124,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorWasRead(stream);
 
             assignBodyFromStream(stream, rows, columns, channels);
         }
@@ -141,6 +142,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorWasRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/tensor_allocators.hpp b/src/types/tensor_impls/tensor_allocators.hpp
index b3a0e1d..932ce70 100644
--- a/src/types/tensor_impls/tensor_allocators.hpp
+++ b/src/types/tensor_impls/tensor_allocators.hpp
@@ -8,9 +8,18 @@
 
 #include <vector>
 #include <execution>
+#include <fstream>
+#include <stdexcept>
 #include "../../types/base_tensors.hpp"
 
 namespace happyml {
+    // A tensor that could not be read completely would hold made-up values.
+    inline void requireTensorWasRead(const ifstream &stream) {
+        if (!stream) {
+            throw runtime_error("Could not read tensor: the file is missing, truncated, or unreadable.");
+        }
+    }
+
     template<typename T>
     void allocateTensorVector(vector<vector<vector<T>>> &data, const size_t rows, const size_t columns,
                               const size_t channels) {
-- 
2.43.0


From 946945fc3e95d9c9b718426dbbcdf25b2eb3ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 05/70] fix: report failed reads and writes and truncation of
 binary dataset files

---
 src/util/file_reader.hpp | 27 +++++++++++++++++++++------
 src/util/file_writer.hpp | 14 +++++++++++++-
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 817090f..3f79b23 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -250,6 +250,7 @@ namespace happyml {
             }
             // advance to the beginning of the row, which is header_size_ + index * row_size_
             std::streamoff offset = static_cast<std::streamoff>(index) * static_cast<std::streamoff>(row_size_);
+            binaryFile_.clear(); // an earlier failed read does not matter to this one
             binaryFile_.seekg(header_size_ + offset, ios::beg);
 
             vector<shared_ptr<BaseTensor>> given_tensors;
@@ -435,7 +436,11 @@ namespace happyml {
                 expected_metadata_.emplace_back(metadata);
             }
             header_size_ = binaryFile_.tellg();
-            number_of_rows_ = static_cast<size_t>(filesystem::file_size(path_) - header_size_) / row_size_;
+            const auto body_size = static_cast<size_t>(filesystem::file_size(path_) - header_size_);
+            if (row_size_ == 0 || body_size % row_size_ != 0) {
+                throw runtime_error("Dataset file is truncated or damaged: " + path_);
+            }
+            number_of_rows_ = body_size / row_size_;
         }
 
         shared_ptr<BinaryColumnMetadata> readColumnMetadata() {
@@ -474,25 +479,35 @@ namespace happyml {
             metadata->channels = portableBytes(portableChannels);
 
             uint64_t portable_label_count;
-            binaryFile_.read(reinterpret_cast<char *>(&portable_label_count), sizeof(uint64_t));
+            if (!binaryFile_.read(reinterpret_cast<char *>(&portable_label_count), sizeof(uint64_t))) {
+                throw runtime_error("Could not read column description");
+            }
             size_t label_count = portableBytes(portable_label_count);
             for (size_t next_label = 0; next_label < label_count; next_label++) {
                 uint64_t label_length;
-                binaryFile_.read(reinterpret_cast<char *>(&label_length), sizeof(uint64_t));
+                if (!binaryFile_.read(reinterpret_cast<char *>(&label_length), sizeof(uint64_t))) {
+                    throw runtime_error("Could not read column description");
+                }
                 auto portable_label_length = portableBytes(label_length);
                 auto label_length_streamsize = static_cast<streamsize>(portable_label_length);
                 vector<char> char_array(label_length_streamsize, 0);
-                binaryFile_.read(char_array.data(), label_length_streamsize);
+                if (!binaryFile_.read(char_array.data(), label_length_streamsize)) {
+                    throw runtime_error("Could not read column description");
+                }
                 string label(char_array.data(), label_length_streamsize);
                 metadata->ordered_labels.push_back(label);
             }
 
             uint64_t column_name_length;
-            binaryFile_.read(reinterpret_cast<char *>(&column_name_length), sizeof(uint64_t));
+            if (!binaryFile_.read(reinterpret_cast<char *>(&column_name_length), sizeof(uint64_t))) {
+                throw runtime_error("Could not read column description");
+            }
             auto portable_column_name_length = portableBytes(column_name_length);
             auto column_name_length_streamsize = static_cast<streamsize>(portable_column_name_length);
             std::vector<char> column_name_char_array(column_name_length_streamsize, 0);
-            binaryFile_.read(column_name_char_array.data(), column_name_length_streamsize);
+            if (!binaryFile_.read(column_name_char_array.data(), column_name_length_streamsize)) {
+                throw runtime_error("Could not read column description");
+            }
             string column_name(column_name_char_array.begin(), column_name_char_array.end());
             metadata->name = column_name;
 
diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 16650d8..def2bbc 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -145,7 +145,11 @@ namespace happyml {
         }
 
         ~BinaryDatasetWriter() {
-            close();
+            try {
+                close();
+            } catch (const exception &e) {
+                cerr << e.what() << endl;
+            }
         }
 
         bool is_open() {
@@ -156,6 +160,7 @@ namespace happyml {
             if (binaryFile_.is_open()) {
                 binaryFile_.flush();
                 binaryFile_.close();
+                requireWritten();
             }
         }
 
@@ -180,10 +185,17 @@ namespace happyml {
             for (const auto &tensor: expected_tensors) {
                 tensor->save(binaryFile_, false);
             }
+            requireWritten();
             return true;
         }
 
     private:
+        void requireWritten() const {
+            if (!binaryFile_) {
+                throw runtime_error("Could not write dataset file.");
+            }
+        }
+
         ofstream binaryFile_;
         vector<shared_ptr<BinaryColumnMetadata>> given_metadata_;
         vector<shared_ptr<BinaryColumnMetadata>> expected_metadata_;
-- 
2.43.0


From 61504d99509646d0273fb0105bd8e05635c05cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 06/70] fix: renormalize each dataset column with its own
 statistics

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 3f79b23..af67796 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -266,19 +266,22 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
                 given_tensors.push_back(next_tensor);
+                given_offset++;
             }
             vector<shared_ptr<BaseTensor>> expected_tensors;
+            size_t expected_offset = 0;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
                 expected_tensors.push_back(next_tensor);
+                expected_offset++;
             }
             return {given_tensors, expected_tensors};
         }
-- 
2.43.0


From 07a655f83f020608385897ddc67300d92e3216a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 07/70] fix: do not drop dataset rows that differ only in small
 values

---
 src/util/file_writer.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index def2bbc..f6252ee 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -267,7 +267,13 @@ namespace happyml {
             size_t result = 0;
             for (const auto &next_tensor: given_tensors) {
                 stringstream ss;
-                next_tensor->print(ss);
+                // a float is identified by the nearest decimal with max_digits10 significant digits,
+                // a fixed number of decimals would make distinct small values look alike
+                ss << scientific << setprecision(numeric_limits<float>::max_digits10);
+                const size_t value_count = next_tensor->size();
+                for (size_t i = 0; i < value_count; i++) {
+                    ss << next_tensor->getValue(i) << ' ';
+                }
                 result ^= hasher(ss.str()) + 0x9e3779b9 + (result << 6) + (result >> 2);
             }
             return result;
-- 
2.43.0


From 015ad5a09253da4982c7f44778068154bf6f112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 08/70] fix: make the two parts of a split dataset meet at the
 same record

---
 src/training_data/training_dataset.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index fac1120..12a0f2b 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -83,10 +83,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = splitPosition(1.0f - split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = splitPosition(-split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -101,10 +101,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = splitPosition(1.0f - split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = splitPosition(-split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -170,6 +170,14 @@ namespace happyml {
 
 
     private:
+        // Where the part on the right, holding the given fraction of the records, begins. Both parts must
+        // agree on it or records would be in both or in neither, so it is computed in only one way, and the
+        // small tolerance makes up for fractions like 0.9 not being exact.
+        size_t splitPosition(float right_fraction) {
+            const float left_fraction = 1.0f - right_fraction;
+            return (size_t) ((double) reader_.rowCount() * (double) left_fraction + 0.001);
+        }
+
         BinaryDatasetReader reader_;
         size_t current_offset_ = 0;
         size_t first_record_offset_ = 0;
-- 
2.43.0


From 235d57e5fe4eeea9838a9f746688cd94d67229f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 09/70] fix: do not skip a dataset record whose delivery failed
 for lack of memory

---
 src/training_data/training_dataset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 12a0f2b..044bb9e 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -138,8 +138,8 @@ namespace happyml {
             // we want our split to have a fair distribution of data. The split shuffler is never reshuffled.
             auto split_shuffled_offset = split_shuffler_->getShuffledIndex(shuffled_offset);
             auto pair = reader_.readRow(shuffled_offset + first_record_offset_);
-            current_offset_++;
             auto result = make_shared<TrainingPair>(pair.first, pair.second);
+            current_offset_++; // only a record that is really returned has been consumed
             return result;
         }
 
-- 
2.43.0


From ac51724941dc77074c7b00fd4d27d6cd46045b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 10/70] fix: hash dataset rows by their bytes so that a memory
 shortage cannot hide a duplicate

---
 src/util/file_writer.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index f6252ee..b64be99 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -266,15 +266,14 @@ namespace happyml {
             std::hash<string> hasher;
             size_t result = 0;
             for (const auto &next_tensor: given_tensors) {
-                stringstream ss;
-                // a float is identified by the nearest decimal with max_digits10 significant digits,
-                // a fixed number of decimals would make distinct small values look alike
-                ss << scientific << setprecision(numeric_limits<float>::max_digits10);
+                // the bytes of the values rather than printed decimals, which make distinct small values look alike
+                string value_bytes;
                 const size_t value_count = next_tensor->size();
                 for (size_t i = 0; i < value_count; i++) {
-                    ss << next_tensor->getValue(i) << ' ';
+                    const float value = next_tensor->getValue(i);
+                    value_bytes.append(reinterpret_cast<const char *>(&value), sizeof(value));
                 }
-                result ^= hasher(ss.str()) + 0x9e3779b9 + (result << 6) + (result >> 2);
+                result ^= hasher(value_bytes) + 0x9e3779b9 + (result << 6) + (result >> 2);
             }
             return result;
         }
-- 
2.43.0


From 660c967d31f6f3c9b92435f2183b2c94114206b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 11/70] fix: rebuild a loaded network with the ids and edges it
 was saved with

---
 src/ml/happyml_dsl.hpp | 221 ++++++++++++++---------------------------
 1 file changed, 76 insertions(+), 145 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..d64a7d3 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -728,6 +728,14 @@ namespace happyml {
         }
 
 
+        // Adds a vertex that was created from a saved model with the id it already has.
+        void addRestoredVertex(const shared_ptr<NNVertex> &vertex) {
+            vertexUniqueSequenceCounter = max(vertexUniqueSequenceCounter, vertex->getVertexUniqueId());
+            if (vertex->doesAcceptInput()) {
+                inputReceptors.push_back(vertex);
+            }
+        }
+
         // TODO: all input today immediately feed into a layer of specified type. This worked great for very linear
         //  models that went from input->layer->layer->output. However, with multiple inputs, this feels a little
         //  weird. "Wait, so I have 3 inputs and you jammed them together into a dense layer?"
@@ -793,146 +801,75 @@ namespace happyml {
         return neuralNetworkBuilder(adam);
     }
 
-    void createVertexFromMetadata(const shared_ptr<HappymlDSL> &dsl,
-                                  const vector<string> &vertexMetadata,
-                                  const shared_ptr<HappymlDSL::NNVertex> &parent,
-                                  map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> &createdVertexes,
-                                  map<uint32_t, vector<string>> &vertexes,
-                                  map<uint32_t, vector<uint32_t>> &edgeFromTo) {
+    shared_ptr<HappymlDSL::NNVertex> createVertexFromMetadata(const shared_ptr<HappymlDSL> &dsl,
+                                                              const vector<string> &vertexMetadata) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
-        const uint32_t vertexId = stoul(vertexMetadata[1]);
-        const auto acceptsInput = asBool(vertexMetadata[2]);
-        const bool producesOutput = asBool(vertexMetadata[3]);
-        const LayerType layerType = stringToNodeType(vertexMetadata[4]);
-        const ActivationType activationType = stringToActivationType(vertexMetadata[5]);
-        const bool isMaterialized = asBool(vertexMetadata[6]);
-        const bool useBias = asBool(vertexMetadata[7]);
-        const uint8_t bits = stoul(vertexMetadata[8]);
-        const size_t number_of_inputs = stoull(vertexMetadata[9]);
+        const uint32_t vertexId = stoul(vertexMetadata.at(1));
+        const auto acceptsInput = asBool(vertexMetadata.at(2));
+        const bool producesOutput = asBool(vertexMetadata.at(3));
+        const LayerType layerType = stringToNodeType(vertexMetadata.at(4));
+        const ActivationType activationType = stringToActivationType(vertexMetadata.at(5));
+        const bool isMaterialized = asBool(vertexMetadata.at(6));
+        const bool useBias = asBool(vertexMetadata.at(7));
+        const uint8_t bits = stoul(vertexMetadata.at(8));
+        const size_t number_of_inputs = stoull(vertexMetadata.at(9));
         size_t current_metadata_offset = 10;
         vector<vector<size_t>> inputShapes;
         for (size_t i = 0; i < number_of_inputs; ++i) {
-            const vector<size_t> inputShape = {stoull(vertexMetadata[current_metadata_offset]),
-                                               stoull(vertexMetadata[current_metadata_offset + 1]),
-                                               stoull(vertexMetadata[current_metadata_offset + 2])};
+            const vector<size_t> inputShape = {stoull(vertexMetadata.at(current_metadata_offset)),
+                                               stoull(vertexMetadata.at(current_metadata_offset + 1)),
+                                               stoull(vertexMetadata.at(current_metadata_offset + 2))};
             inputShapes.push_back(inputShape);
             current_metadata_offset += 3;
         }
-        const vector<size_t> outputShape = {stoull(vertexMetadata[current_metadata_offset]),
-                                            stoull(vertexMetadata[current_metadata_offset + 1]),
-                                            stoull(vertexMetadata[current_metadata_offset + 2])};
+        const vector<size_t> outputShape = {stoull(vertexMetadata.at(current_metadata_offset)),
+                                            stoull(vertexMetadata.at(current_metadata_offset + 1)),
+                                            stoull(vertexMetadata.at(current_metadata_offset + 2))};
         current_metadata_offset += 3;
-        size_t filters = stoull(vertexMetadata[current_metadata_offset]);
+        size_t filters = stoull(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        size_t kernels = stoull(vertexMetadata[current_metadata_offset]);
+        size_t kernels = stoull(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        bool use_l2_regularization = asBool(vertexMetadata[current_metadata_offset]);
+        bool use_l2_regularization = asBool(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        bool use_normalization = asBool(vertexMetadata[current_metadata_offset]);
+        bool use_normalization = asBool(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        bool use_clipping = asBool(vertexMetadata[current_metadata_offset]);
+        bool use_clipping = asBool(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        float clipping_threshold = stof(vertexMetadata[current_metadata_offset]);
+        float clipping_threshold = stof(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        float dropout_rate = stof(vertexMetadata[current_metadata_offset]);
+        float dropout_rate = stof(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        float regularization_strength = stof(vertexMetadata[current_metadata_offset]);
+        float regularization_strength = stof(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
 
-        if (acceptsInput) {
-            if (inputShapes.size() > 1) {
-                throw runtime_error("An input layer can't have multiple inputs.");
-            }
-            if (producesOutput) {
-                if (filters > 0) {
-                    createdVertexes[vertexId] = dsl->addInputOutputLayer(inputShapes[0], filters, kernels, layerType,
-                                                                         activationType);
-                } else {
-                    createdVertexes[vertexId] = dsl->addInputOutputLayer(inputShapes[0], outputShape, layerType,
-                                                                         activationType);
-                }
-            } else {
-                if (filters > 0) {
-                    createdVertexes[vertexId] = dsl->addInputLayer(inputShapes[0], filters, kernels, layerType,
-                                                                   activationType);
-                } else {
-                    createdVertexes[vertexId] = dsl->addInputLayer(inputShapes[0], outputShape, layerType,
-                                                                   activationType);
-                }
-            }
-        } else {
-            if (!parent) {
-                throw runtime_error("missing parent");
-            }
-
-            if (layerType == concatenate) {
-                // a concatenated layer has multiple parents.
-
-                // because layers are in the order they were originally created and the concatenation
-                // layer is last, if we are at this point, all parents should exist, we just need to find them
-                // I think the parent order should also be maintained
-                bool all_parents_exist = true;
-                vector<shared_ptr<HappymlDSL::NNVertex>> all_parents;
-                for (const auto &edge_pair: edgeFromTo) {
-                    auto edge_to_ids = edge_pair.second;
-                    // if edge_to_ids contains vertexId, then we need to add the parent to the concatenated layer
-                    if (std::find(edge_to_ids.begin(), edge_to_ids.end(), vertexId) != edge_to_ids.end()) {
-                        auto edge_from_id = edge_pair.first;
-                        if (createdVertexes.count(edge_from_id) == 0) {
-                            all_parents_exist = false;
-                            break;
-                        }
-                        auto edge_from_vertex = createdVertexes[edge_from_id];
-                        all_parents.push_back(edge_from_vertex);
-                    }
-                }
-                if (!all_parents_exist) {
-                    return;
-                }
-                createdVertexes[vertexId] = dsl->add_concatenated_layer(all_parents);
-            } else if (filters > 0) {
-                createdVertexes[vertexId] = parent->addLayer(filters,
-                                                             kernels,
-                                                             layerType,
-                                                             producesOutput,
-                                                             activationType);
-            } else {
-                if (producesOutput && layerType != full) {
-                    throw runtime_error("output node type wasn't full");
-                }
-                createdVertexes[vertexId] = parent->addLayer(inputShapes[0],
-                                                             outputShape,
-                                                             layerType,
-                                                             producesOutput,
-                                                             activationType);
-            }
+        if (inputShapes.empty()) {
+            throw runtime_error("Bad model definition. A layer needs an input shape.");
         }
-        createdVertexes[vertexId]->setMaterialized(isMaterialized);
-        createdVertexes[vertexId]->setUseBias(useBias);
-        createdVertexes[vertexId]->setBits(bits);
-        createdVertexes[vertexId]->setUseL2Regularization(use_l2_regularization);
-        createdVertexes[vertexId]->setRegularizationStrength(regularization_strength);
-        createdVertexes[vertexId]->setUseNormalization(use_normalization);
-        createdVertexes[vertexId]->setNormClippingThreshold(clipping_threshold); // set this first because it would enable clipping
-        createdVertexes[vertexId]->setUseNormClipping(use_clipping); // set this second because it could disable clipping if required
-        createdVertexes[vertexId]->setDropoutRate(dropout_rate);
-
-        if (edgeFromTo.count(vertexId) > 0) {
-            auto edges = edgeFromTo[vertexId];
-            for (auto nextEdge: edges) {
-                if (vertexes.count(nextEdge) < 1) {
-                    throw runtime_error("Bad model definition. Edge not found!");
-                }
-                auto nextVertexMetadata = vertexes[nextEdge];
-                createVertexFromMetadata(dsl,
-                                         nextVertexMetadata,
-                                         createdVertexes[vertexId],
-                                         createdVertexes,
-                                         vertexes,
-                                         edgeFromTo);
-            }
+        if (acceptsInput && inputShapes.size() > 1) {
+            throw runtime_error("An input layer can't have multiple inputs.");
         }
+        shared_ptr<HappymlDSL::NNVertex> vertex;
+        if (layerType == concatenate) {
+            vertex = make_shared<HappymlDSL::NNVertex>(dsl, layerType, inputShapes, outputShape, vertexId);
+        } else if (filters > 0) {
+            vertex = make_shared<HappymlDSL::NNVertex>(dsl, layerType, inputShapes[0], filters, kernels,
+                                                       producesOutput, acceptsInput, activationType, vertexId);
+        } else {
+            vertex = make_shared<HappymlDSL::NNVertex>(dsl, layerType, inputShapes[0], outputShape,
+                                                       producesOutput, acceptsInput, activationType, vertexId);
+        }
+        vertex->setMaterialized(isMaterialized);
+        vertex->setUseBias(useBias);
+        vertex->setBits(bits);
+        vertex->setUseL2Regularization(use_l2_regularization);
+        vertex->setRegularizationStrength(regularization_strength);
+        vertex->setUseNormalization(use_normalization);
+        vertex->setNormClippingThreshold(clipping_threshold); // set this first because it would enable clipping
+        vertex->setUseNormClipping(use_clipping); // set this second because it could disable clipping if required
+        vertex->setDropoutRate(dropout_rate);
+        return vertex;
     }
 
     shared_ptr<NeuralNetworkForTraining> loadNeuralNetworkForTraining(const string &modelName,
@@ -971,37 +908,31 @@ namespace happyml {
                 ->setLearningRate(learningRate)
                 ->setBiasLearningRate(biasLearningRate);
 
-        set<uint32_t> headVertexes;
-        map<uint32_t, vector<string>> vertexes;
-        map<uint32_t, vector<uint32_t>> edgeFromTo;
+        // Each vertex keeps the id it was saved with, because the ids name the files with the knowledge, and the
+        // edges are added in the order they were saved, because that order decides the order of inputs and outputs.
+        map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> vertexes;
+        vector<vector<string>> edgeRecords;
         while (configReader->hasNext()) {
             auto nextRecord = configReader->nextRecord();
-            if (nextRecord[0] == "vertex") {
-                uint32_t vertexId = stoul(nextRecord[1]);
-                vertexes[vertexId] = nextRecord;
-                const auto acceptsInput = asBool(nextRecord[2]);
-                if (acceptsInput) {
-                    headVertexes.insert(vertexId);
-                }
+            if (nextRecord.at(0) == "vertex") {
+                auto vertex = createVertexFromMetadata(dsl, nextRecord);
+                vertexes[vertex->getVertexUniqueId()] = vertex;
             } else {
-                uint32_t fromLabel = stoul(nextRecord[1]);
-                vector<uint32_t> toLabels;
-                for (size_t index = 2; index < nextRecord.size(); index++) {
-                    uint32_t toLabel = stoul(nextRecord[index]);
-                    toLabels.push_back(toLabel);
+                edgeRecords.push_back(nextRecord);
+            }
+        }
+        for (const auto &edgeRecord: edgeRecords) {
+            auto from = vertexes.find(stoul(edgeRecord.at(1)));
+            for (size_t index = 2; index < edgeRecord.size(); index++) {
+                auto to = vertexes.find(stoul(edgeRecord[index]));
+                if (from == vertexes.end() || to == vertexes.end()) {
+                    throw runtime_error("Bad model definition. Edge not found!");
                 }
-                edgeFromTo[fromLabel] = toLabels;
+                from->second->addEdge(to->second);
             }
         }
-        map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> createdVertexes;
-        for (auto headVertexId: headVertexes) {
-            auto vertexMetadata = vertexes[headVertexId];
-            createVertexFromMetadata(dsl,
-                                     vertexMetadata,
-                                     nullptr,
-                                     createdVertexes,
-                                     vertexes,
-                                     edgeFromTo);
+        for (const auto &[vertexId, vertex]: vertexes) {
+            dsl->addRestoredVertex(vertex);
         }
 
         auto resultNeuralNetwork = dsl->build();
-- 
2.43.0


From 1ed9c6fbda3ea159a7db5e91bec66174821f0a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 12/70] fix: never save over an earlier version when saving
 without overwrite

---
 src/ml/neural_network.hpp |  4 +---
 src/util/data_util.hpp    | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..951ac53 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -222,9 +222,7 @@ namespace happyml {
                     auto canonicalModelPath = filesystem::canonical(modelPath);
                     cerr << "Model path " << canonicalModelPath
                          << " already existed, attempting to save to the new location: ";
-                    auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
-                            chrono::system_clock::now().time_since_epoch()).count());
-                    canonicalModelPath += "_" + ms;
+                    canonicalModelPath = find_unused_path(canonicalModelPath);
                     cerr << canonicalModelPath << endl;
                     modelPath = canonicalModelPath.generic_string();
                 } else {
diff --git a/src/util/data_util.hpp b/src/util/data_util.hpp
index 6ebc719..1c481f8 100644
--- a/src/util/data_util.hpp
+++ b/src/util/data_util.hpp
@@ -33,6 +33,20 @@ namespace happyml {
         return ss.str();
     }
 
+    // Finds a path that does not exist yet by adding the current time to a path that does.
+    filesystem::path find_unused_path(const filesystem::path &existingPath) {
+        auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
+                chrono::system_clock::now().time_since_epoch()).count());
+        auto unusedPath = existingPath;
+        unusedPath += "_" + ms;
+        // the clock may not have moved since the last save, or it may have been set back.
+        for (size_t attempt = 1; filesystem::exists(unusedPath); attempt++) {
+            unusedPath = existingPath;
+            unusedPath += "_" + ms + "_" + std::to_string(attempt);
+        }
+        return unusedPath;
+    }
+
     string initialize_knowledge_path_directory(const string &modelFolderPath, const string &knowledgeLabel, bool overwrite) {
         string fullKnowledgePath = modelFolderPath + "/" + knowledgeLabel;
         if (filesystem::is_directory(fullKnowledgePath)) {
@@ -40,9 +54,7 @@ namespace happyml {
                 auto canonicalFullKnowledgePath = filesystem::canonical(fullKnowledgePath);
                 cerr << "Knowledge path " << canonicalFullKnowledgePath
                      << " already existed, attempting to save to the new location: ";
-                auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
-                        chrono::system_clock::now().time_since_epoch()).count());
-                canonicalFullKnowledgePath += "_" + ms;
+                canonicalFullKnowledgePath = find_unused_path(canonicalFullKnowledgePath);
                 cerr << canonicalFullKnowledgePath << endl;
                 fullKnowledgePath = canonicalFullKnowledgePath.generic_string();
             } else {
-- 
2.43.0


From 1fba8dd33da0f01e2e16fc8685e017ab672a5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 13/70] fix: put model.config in place last so an interrupted
 save is not loaded

---
 src/ml/happyml_dsl.hpp    | 16 ++++++++--------
 src/ml/neural_network.hpp |  8 ++++++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index d64a7d3..5bb61c2 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -880,28 +880,28 @@ namespace happyml {
         auto configReader = make_shared<DelimitedTextFileReader>(configPath, ':');
 
         auto optimizerRecord = configReader->nextRecord();
-        if (optimizerRecord[0] != "optimizer") {
+        if (optimizerRecord.at(0) != "optimizer") {
             throw runtime_error("Invalid model.config missing optimizer field.");
         }
-        const OptimizerType optimizerType = stringToOptimizerType(optimizerRecord[1]);
+        const OptimizerType optimizerType = stringToOptimizerType(optimizerRecord.at(1));
 
         auto learningRateRecord = configReader->nextRecord();
-        if (learningRateRecord[0] != "learningRate") {
+        if (learningRateRecord.at(0) != "learningRate") {
             throw runtime_error("Invalid model.config missing learningRate field.");
         }
-        float learningRate = stof(learningRateRecord[1]);
+        float learningRate = stof(learningRateRecord.at(1));
 
         auto biasLearningRateRecord = configReader->nextRecord();
-        if (biasLearningRateRecord[0] != "biasLearningRate") {
+        if (biasLearningRateRecord.at(0) != "biasLearningRate") {
             throw runtime_error("Invalid model.config missing biasLearningRate field.");
         }
-        float biasLearningRate = stof(biasLearningRateRecord[1]);
+        float biasLearningRate = stof(biasLearningRateRecord.at(1));
 
         auto lossRecord = configReader->nextRecord();
-        if (lossRecord[0] != "loss") {
+        if (lossRecord.at(0) != "loss") {
             throw runtime_error("Invalid model.config missing loss field.");
         }
-        const LossType lossType = stringToLossType(lossRecord[1]);
+        const LossType lossType = stringToLossType(lossRecord.at(1));
 
         auto dsl = neuralNetworkBuilder(optimizerType, modelName, repoRootPath)
                 ->setLossFunction(lossType)
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 951ac53..2790850 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -230,13 +230,17 @@ namespace happyml {
                 }
             }
             filesystem::create_directories(modelPath);
+            saveKnowledge(modelPath, "default", overwrite);
+            // model.config is put in place last and in one step, so a save that is interrupted doesn't leave
+            // something that looks like a model.
             string modelProperties = modelPath + "/model.config";
-            auto writer = make_unique<DelimitedTextFileWriter>(modelProperties, ':');
+            string incompleteModelProperties = modelProperties + ".incomplete";
+            auto writer = make_unique<DelimitedTextFileWriter>(incompleteModelProperties, ':');
             for (const auto &record: networkMetadata) {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            filesystem::rename(incompleteModelProperties, modelProperties);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
-- 
2.43.0


From 7cfb96643138fccc40e2652eeb3b57cb7944a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 14/70] fix: limit the total training time, measured by a clock
 that cannot be set

---
 src/ml/neural_network.hpp |  3 +--
 src/util/timers.hpp       | 48 +++++++++++++++++++--------------------
 2 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 2790850..a446bf0 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -445,7 +445,6 @@ namespace happyml {
                 logTraining(0, 0, 0, ceil(total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
             }
             size_t epoch = 0;
-            ElapsedTimer epochTimer;
             float epochTrainingLoss;
             float epochTestingLoss;
             int64_t trainingElapsedTimeInMilliseconds;
@@ -557,7 +556,7 @@ namespace happyml {
                 }
                 trainingDataset->restart();
                 epoch++;
-                trainingElapsedTimeInMilliseconds = epochTimer.getMilliseconds();
+                trainingElapsedTimeInMilliseconds = totalTimer.peekMilliseconds();
             } while (!exitStrategy->isDone(epoch, epochTestingLoss, trainingElapsedTimeInMilliseconds));
 
             if (!silentMode) {
diff --git a/src/util/timers.hpp b/src/util/timers.hpp
index d3a0b6c..f10443d 100644
--- a/src/util/timers.hpp
+++ b/src/util/timers.hpp
@@ -16,51 +16,51 @@ namespace happyml {
     class ElapsedTimer {
     public:
         ElapsedTimer() {
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
         }
 
         int64_t getMicroseconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::microseconds>(stopTime - startTime);
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
             return duration.count();
         }
 
         int64_t peekMicroseconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::microseconds>(stopTime - startTime);
             return duration.count();
         }
 
         int64_t getMilliseconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::milliseconds>(stopTime - startTime);
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
             return duration.count();
         }
 
         int64_t peekMilliseconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::milliseconds>(stopTime - startTime);
             return duration.count();
         }
 
         int64_t getSeconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::seconds>(stopTime - startTime);
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
             return duration.count();
         }
 
         int64_t peekSeconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::seconds>(stopTime - startTime);
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
             return duration.count();
         }
 
     private:
-        chrono::time_point<chrono::high_resolution_clock> startTime;
+        chrono::time_point<chrono::steady_clock> startTime;
     };
 
     class SimpleTimer {
@@ -68,11 +68,11 @@ namespace happyml {
         SimpleTimer() = default;
 
         void start() {
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
         }
 
         void stop() {
-            stopTime = chrono::high_resolution_clock::now();
+            stopTime = chrono::steady_clock::now();
         }
 
         void printMicroseconds() {
@@ -91,39 +91,39 @@ namespace happyml {
         }
 
     private:
-        chrono::time_point<chrono::high_resolution_clock> startTime;
-        chrono::time_point<chrono::high_resolution_clock> stopTime;
+        chrono::time_point<chrono::steady_clock> startTime;
+        chrono::time_point<chrono::steady_clock> stopTime;
     };
 
     class EvenMoreSimpleTimer {
     public:
         EvenMoreSimpleTimer() {
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
         }
 
         void printMicroseconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::microseconds>(stopTime - startTime);
             cout << "Elapsed Time: " << duration.count() << " microseconds" << endl;
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
         }
 
         void printMilliseconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::milliseconds>(stopTime - startTime);
             cout << "Elapsed Time: " << duration.count() << " milliseconds" << endl;
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
         }
 
         void printSeconds() {
-            auto stopTime = chrono::high_resolution_clock::now();
+            auto stopTime = chrono::steady_clock::now();
             auto duration = chrono::duration_cast<chrono::seconds>(stopTime - startTime);
             cout << "Elapsed Time: " << duration.count() << " seconds" << endl;
-            startTime = chrono::high_resolution_clock::now();
+            startTime = chrono::steady_clock::now();
         }
 
     private:
-        chrono::time_point<chrono::high_resolution_clock> startTime;
+        chrono::time_point<chrono::steady_clock> startTime;
     };
 
 }
-- 
2.43.0


From d4c518f5ca8871f12fb63cb56c632e26fa20e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 15/70] fix: average the training loss over all records of the
 epoch

---
 src/ml/neural_network.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index a446bf0..832085b 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -424,6 +424,9 @@ namespace happyml {
                 //  set. If they are, give a warning.
             }
             auto total_records = trainingDataset->recordCount();
+            if (batchSize < 1) {
+                throw runtime_error("Batch Size must be at least one.");
+            }
             if (batchSize > total_records) {
                 throw runtime_error("Batch Size cannot be larger than trainingDataset data set.");
             }
@@ -488,12 +491,12 @@ namespace happyml {
 
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
-                        size_t currentBatch = ceil(current_record / batchSize);
+                        const size_t currentBatch = (current_record + batchSize - 1) / batchSize;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
                             outputNodes[outputIndex]->apply(optimizer);
                         }
-                        batchLoss /= (float) batchOffset;
-                        epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
+                        // the last batch may be smaller, so a batch counts as much as the records it has
+                        epochTrainingLoss += (batchLoss - epochTrainingLoss * (float) batchOffset) / (float) current_record;
                         batchLoss = 0.f;
 
                         auto elapsedTime = batchTimer.peekMilliseconds();
-- 
2.43.0


From e876a6e0e6835aa04e3adea4b722631b02cbebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 16/70] fix: count the error of each branch once

---
 src/ml/neural_network_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index dc2d625..8374e70 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -244,7 +244,7 @@ namespace happyml {
                             break;
                         }
                         if (sum == nullptr) {
-                            sum = make_shared<AddTensorView>(prior_error, output_conn->prior_error);
+                            sum = output_conn->prior_error;
                         } else {
                             sum = make_shared<AddTensorView>(sum, output_conn->prior_error);
                         }
-- 
2.43.0


From 8db9c2d2efb5d3335031c4e46c13e24b9a19d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 17/70] fix: apply the changes of a layer with several branches
 once per batch

---
 src/ml/neural_network.hpp      | 3 ++-
 src/ml/neural_network_node.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 832085b..41f7f79 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -492,8 +492,9 @@ namespace happyml {
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
                         const size_t currentBatch = (current_record + batchSize - 1) / batchSize;
+                        std::unordered_set<void *> applied;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
-                            outputNodes[outputIndex]->apply(optimizer);
+                            outputNodes[outputIndex]->apply(optimizer, applied);
                         }
                         // the last batch may be smaller, so a batch counts as much as the records it has
                         epochTrainingLoss += (batchLoss - epochTrainingLoss * (float) batchOffset) / (float) current_record;
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 8374e70..be16337 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -183,12 +183,16 @@ namespace happyml {
             return clipped;
         }
 
-        void apply(const shared_ptr<BaseOptimizer> &optimizer) {
+        void apply(const shared_ptr<BaseOptimizer> &optimizer, std::unordered_set<void *> &visited) {
+            // a node that feeds several branches is reached once for each of them, but has one change to apply
+            if (!visited.insert((void *) this).second) {
+                return;
+            }
             neuralNetworkFunction->apply(optimizer);
             for (const auto &inputConnection: connectionInputs) {
                 const auto conn = inputConnection.lock();
                 const auto from = conn->from.lock();
-                from->apply(optimizer);
+                from->apply(optimizer, visited);
             }
             saved = false;
         }
-- 
2.43.0


From 19f553a9d6135b72b9b1d2a75510174f4e354beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 18/70] fix: return the error of a concatenation to the input
 it came from

---
 src/ml/layers/concatenate_wide_layer.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ml/layers/concatenate_wide_layer.hpp b/src/ml/layers/concatenate_wide_layer.hpp
index 35cfdd3..9e68b25 100644
--- a/src/ml/layers/concatenate_wide_layer.hpp
+++ b/src/ml/layers/concatenate_wide_layer.hpp
@@ -47,6 +47,14 @@ namespace happyml {
                 throw runtime_error("You need at least two tensors to concatenate.");
             }
 
+            if (forTraining) {
+                // the inputs arrive in the order they were connected, which isn't always the order they were declared
+                input_widths_.clear();
+                for (const auto &next: input) {
+                    input_widths_.push_back(next->columnCount());
+                }
+            }
+
             shared_ptr<BaseTensor> result = make_shared<ConcatWideTensorView>(input[0], input[1]);
 
             for (size_t i = 2; i < input.size(); ++i) {
@@ -62,8 +70,7 @@ namespace happyml {
             vector<shared_ptr<BaseTensor>> errors;
             size_t start_column = 0;
 
-            for (const auto& shape : input_shapes_) {
-                size_t input_column_count = shape[1];
+            for (const size_t input_column_count : input_widths_) {
                 auto error_view = make_shared<WindowTensorView>(output_error, start_column, start_column + input_column_count);
                 errors.push_back(error_view);
                 start_column += input_column_count;
@@ -79,6 +86,7 @@ namespace happyml {
     private:
         vector<vector<size_t>> input_shapes_;
         vector<size_t> output_shape_;
+        vector<size_t> input_widths_;
         string label_;
     };
 }
-- 
2.43.0


From e287cbc70448a1ca9cc76a69de5f03c8a1cc7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 19/70] fix: softmax with cross-entropy passes the error on as
 it is

---
 src/ml/activators/softmax_activation_function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/activators/softmax_activation_function.hpp b/src/ml/activators/softmax_activation_function.hpp
index 69686a8..50fcc3a 100644
--- a/src/ml/activators/softmax_activation_function.hpp
+++ b/src/ml/activators/softmax_activation_function.hpp
@@ -28,7 +28,7 @@ namespace happyml {
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
             // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss
-            return input;
+            return std::make_shared<UniformTensor>(input->getShape(), 1.0f);
         }
     };
 }
-- 
2.43.0


From be5d51a76403f175aa935c182cc1a42febb5bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 20/70] fix: absolute error losses descend along the sign of
 the difference

---
 src/ml/losses/mae_loss.hpp  | 5 ++++-
 src/ml/losses/smae_loss.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..2b1c748 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_MAE_LOSS_HPP
 
 #include "../../types/tensor_views/absolute_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as L1 loss
@@ -32,7 +33,9 @@ namespace happyml {
             shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ValueTransformTensorView>(error_diff, [](float difference) {
+                return (float) (difference > 0.0f) - (float) (difference < 0.0f);
+            });
             return currentLossDerivative;
         }
     };
diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..194712c 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -8,6 +8,7 @@
 
 #include "../../types/tensor_views/less_than_scalar_tensor_view.hpp"
 #include "../../types/tensor_views/masked_select_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as Smooth L1 loss, Smooth Mean Absolute Error loss, or Huber loss
@@ -51,7 +52,9 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, [](float difference) {
+                return (float) (difference > 0.0f) - (float) (difference < 0.0f);
+            });
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From c81d65086f0d76afaaa92300dd24428edbf9e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 21/70] fix: L2 regularization of a convolution is based on its
 weights

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index befdd42..825cce2 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -145,7 +145,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From f9fd92fcde5e9a18316bc1d716fa42517e973835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 22/70] fix: average the changes of a convolution over the
 batch, filter by filter

---
 src/ml/happyml_dsl.hpp                       |  6 ++++-
 src/ml/layers/convolution_2d_valid_layer.hpp | 25 ++++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 5bb61c2..554139a 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -463,9 +463,13 @@ namespace happyml {
                 } else if (node_type == LayerType::convolution2dValid) {
                     auto inputShape = inputShapes[0];
                     string c2dvLabel = asString(vertexUniqueId) + "_c2dv";
+                    const int firstRegistrationId = optimizer->registerForWeightChanges();
+                    for (size_t filter = 1; filter < filters; filter++) {
+                        optimizer->registerForWeightChanges(); // the ids of the other filters follow the first
+                    }
                     auto c2d = make_shared<Convolution2dValidFunction>(c2dvLabel, inputShape, filters, kernel_size,
                                                                        bits,
-                                                                       optimizer->registerForWeightChanges(),
+                                                                       firstRegistrationId,
                                                                        use_l2_regularization,
                                                                        regularization_strength);
                     next_node = make_shared<NeuralNetworkNode>(c2d);
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 825cce2..b0b37e7 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -166,16 +166,27 @@ namespace happyml {
             PROFILE_BLOCK(profileBlock);
 
             const size_t filters = outputShape[2];
+            if (weight_changes.empty()) {
+                throw runtime_error("Convolution2dValidFunction.apply() called without previous weight changes.");
+            }
+            const size_t batchSize = weight_changes.size();
+            vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
+            weight_changes.pop();
             while (!weight_changes.empty()) {
-                vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
-                weight_changes.pop();
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
-                    auto loss_gradient = weightChanges[outputLayer];
-                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
-                                                                                   weights[outputLayer],
-                                                                                   loss_gradient);
-                    weights[outputLayer] = materializeTensor(adjustedWeights, bits);
+                    weightChanges[outputLayer] = make_shared<AddTensorView>(weightChanges[outputLayer],
+                                                                            weight_changes.front()[outputLayer]);
                 }
+                weight_changes.pop();
+            }
+            for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
+                const auto loss_gradient = materializeTensor(
+                        make_shared<ScalarDivideTensorView>(weightChanges[outputLayer], (float) batchSize));
+                // each filter has optimizer state of its own
+                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id + (int) outputLayer,
+                                                                               weights[outputLayer],
+                                                                               loss_gradient);
+                weights[outputLayer] = materializeTensor(adjustedWeights, bits);
             }
         }
 
-- 
2.43.0


From 0507894b1d958846a130f790135c3b544b9fbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 23/70] fix: a failed prediction or training step leaves
 nothing behind for the next one

---
 src/ml/base_layer.hpp                        |  4 ++++
 src/ml/layers/activation_layer.hpp           |  6 ++++++
 src/ml/layers/bias_layer.hpp                 |  6 ++++++
 src/ml/layers/convolution_2d_valid_layer.hpp |  9 +++++++++
 src/ml/layers/fully_connected_layer.hpp      |  9 +++++++++
 src/ml/neural_network.hpp                    | 17 ++++++++++++++++-
 src/ml/neural_network_node.hpp               | 14 ++++++++++++++
 7 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/ml/base_layer.hpp b/src/ml/base_layer.hpp
index 5be5434..ba78a51 100644
--- a/src/ml/base_layer.hpp
+++ b/src/ml/base_layer.hpp
@@ -33,6 +33,10 @@ namespace happyml {
 
         }
 
+        // forgets what was remembered about inputs and errors of a training step that won't be completed
+        virtual void discardTrainingStep() {
+        }
+
         virtual void saveKnowledge(const string &fullKnowledgePath) {
         }
 
diff --git a/src/ml/layers/activation_layer.hpp b/src/ml/layers/activation_layer.hpp
index 7e379ae..ce0c739 100644
--- a/src/ml/layers/activation_layer.hpp
+++ b/src/ml/layers/activation_layer.hpp
@@ -14,6 +14,12 @@ namespace happyml {
             this->activationFunction = activationFunction;
         }
 
+        void discardTrainingStep() override {
+            while (!lastInputs.empty()) {
+                lastInputs.pop();
+            }
+        }
+
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             // todo: throw error on wrong size input?
             PROFILE_BLOCK(profileBlock);
diff --git a/src/ml/layers/bias_layer.hpp b/src/ml/layers/bias_layer.hpp
index fb58654..80aff19 100644
--- a/src/ml/layers/bias_layer.hpp
+++ b/src/ml/layers/bias_layer.hpp
@@ -42,6 +42,12 @@ namespace happyml {
             this->bias = make_shared<FullTensor>(path);
         }
 
+        void discardTrainingStep() override {
+            while (!bias_errors.empty()) {
+                bias_errors.pop();
+            }
+        }
+
         // predicting
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             PROFILE_BLOCK(profileBlock);
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index b0b37e7..696de3b 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -54,6 +54,15 @@ namespace happyml {
             }
         }
 
+        void discardTrainingStep() override {
+            while (!lastInputs.empty()) {
+                lastInputs.pop();
+            }
+            while (!weight_changes.empty()) {
+                weight_changes.pop();
+            }
+        }
+
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             PROFILE_BLOCK(profileBlock);
             if (input.size() > 1) {
diff --git a/src/ml/layers/fully_connected_layer.hpp b/src/ml/layers/fully_connected_layer.hpp
index 5342fa0..bbbcd85 100644
--- a/src/ml/layers/fully_connected_layer.hpp
+++ b/src/ml/layers/fully_connected_layer.hpp
@@ -48,6 +48,15 @@ namespace happyml {
             this->weights = make_shared<FullTensor>(path);
         }
 
+        void discardTrainingStep() override {
+            while (!lastInputs.empty()) {
+                lastInputs.pop();
+            }
+            while (!weights_errors.empty()) {
+                weights_errors.pop();
+            }
+        }
+
         // predicting
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             PROFILE_BLOCK(profileBlock);
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 41f7f79..d89689a 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -88,6 +88,11 @@ namespace happyml {
             if (givenInputs.size() != headNodes.size()) {
                 throw runtime_error("infer requires as many input tensors as there are input nodes");
             }
+            if (predictionInterrupted) {
+                // the last prediction failed and what it left behind must not become part of this one
+                discardPending();
+            }
+            predictionInterrupted = true;
             for (size_t i = 0; i < headNodes.size(); i++) {
                 headNodes[i]->forwardFromInput(givenInputs[i], forTraining);
             }
@@ -96,7 +101,7 @@ namespace happyml {
             for (const auto &output: outputNodes) {
                 results.push_back(output->consumeLastOutput());
             }
-
+            predictionInterrupted = false;
             return results;
         }
 
@@ -117,6 +122,15 @@ namespace happyml {
         }
 
     protected:
+        // forgets what failed predictions or training steps have left behind in the graph
+        void discardPending() {
+            std::unordered_set<void *> visited;
+            for (const auto &headNode: headNodes) {
+                headNode->discardPending(visited);
+            }
+        }
+
+        bool predictionInterrupted = false;
         string name;
         string repoRootPath;
         vector<shared_ptr<NeuralNetworkNode>> headNodes;
@@ -431,6 +445,7 @@ namespace happyml {
                 throw runtime_error("Batch Size cannot be larger than trainingDataset data set.");
             }
 
+            discardPending();
             auto trainingShuffler = make_shared<Shuffler>(trainingDataset->recordCount());
             trainingDataset->setShuffler(trainingShuffler);
 
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index be16337..5f62cc3 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -167,6 +167,20 @@ namespace happyml {
             }
         }
 
+        // Forgets everything that is on its way through the graph after a prediction or a training step failed, so
+        // that it doesn't become part of the next one.
+        void discardPending(std::unordered_set<void *> &visited) {
+            if (!visited.insert((void *) this).second) {
+                return;
+            }
+            neuralNetworkFunction->discardTrainingStep();
+            for (const auto &outputConnection: connectionOutputs) {
+                outputConnection->next_input = nullptr;
+                outputConnection->prior_error = nullptr;
+                outputConnection->to->discardPending(visited);
+            }
+        }
+
         vector<shared_ptr<BaseTensor>> clip(const vector<shared_ptr<BaseTensor>> &errors_from_backward) {
             // backward could be sending to multiple parent nodes in the case we are coming from something
             // like a concatenation layer.
-- 
2.43.0


From 0de7da97d1d801592df52740b5ae1771181bd3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 24/70] fix: remove the checkpoint when training fails

---
 src/ml/neural_network.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index d89689a..05ac3df 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -137,6 +137,20 @@ namespace happyml {
         vector<shared_ptr<NeuralNetworkOutputNode>> outputNodes;
     };
 
+    // Removes a temporary directory when it goes out of scope, however that happens.
+    class TemporaryDirectoryGuard {
+    public:
+        explicit TemporaryDirectoryGuard(const string &path) : path(path) {}
+
+        ~TemporaryDirectoryGuard() {
+            std::error_code ignored;
+            filesystem::remove_all(path, ignored);
+        }
+
+    private:
+        string path;
+    };
+
     class NeuralNetworkForTraining : public NeuralNetworkForPrediction {
     public:
         NeuralNetworkForTraining(const string &name, const string &repoRootPath, const OptimizerType optimizerType,
@@ -416,6 +430,11 @@ namespace happyml {
             string knowledgeCheckpointLabel = "checkpoint_" + std::to_string(
                     chrono::duration_cast<chrono::milliseconds>(
                             chrono::system_clock::now().time_since_epoch()).count());
+            unique_ptr<TemporaryDirectoryGuard> checkpointGuard;
+            if (trainingRetentionPolicy == best) {
+                checkpointGuard = make_unique<TemporaryDirectoryGuard>(
+                        repoRootPath + "/" + name + "/" + knowledgeCheckpointLabel);
+            }
             bool useTestDataset = testDataset->recordCount() > 0;
             if (useTestDataset) {
                 if (testDataset->getExpectedShapes().size() != trainingDataset->getExpectedShapes().size()) {
@@ -492,9 +511,6 @@ namespace happyml {
                         auto nextLoss = lossFunction->compute_loss(nextError);
                         if (isnan(nextLoss)) {
                             // todo: we could do something better here
-                            if (trainingRetentionPolicy == best) {
-                                removeKnowledge(knowledgeCheckpointLabel);
-                            }
                             throw runtime_error("Error calculating loss.");
                         }
                         single_prediction_loss += nextLoss;
-- 
2.43.0


From 23c9a08af0957b15f11b27ad6e25780e68c1722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 25/70] fix: pass errors back through a flattened layer that
 has several channels

Training a convolution with several filters in front of a fully connected layer
always failed, because the flattened error could not be given its channels back.
---
 src/ml/layers/flatten_layer.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..0919e08 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -18,6 +18,7 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
+            originalChannels = nextInput->channelCount();
             if (originalRows == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
@@ -31,12 +32,23 @@ namespace happyml {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
-            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            // the channels were laid out one after the other
+            vector<vector<vector<float>>> error(originalChannels, vector<vector<float>>(originalRows, vector<float>(originalCols)));
+            size_t position = 0;
+            for (auto &channel: error) {
+                for (auto &row: channel) {
+                    for (auto &value: row) {
+                        value = output_error->getValue(0, position++, 0);
+                    }
+                }
+            }
+            return {make_shared<FullTensor>(error)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
-- 
2.43.0


From 856aa4f7d70912b587f6292ccc98e785450442a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 26/70] fix: a convolution passes each channel of its input the
 error of that channel

The errors of all channels were added up, so a layer in front of a convolution
was trained with the wrong error or not at all.
---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 696de3b..c930263 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -167,8 +167,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From 6c4a176295dc7fb19d22aa226e2dd6e1fa3b46a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 27/70] fix: compare every value of every output when measuring
 binary accuracy

As many values were compared as the network has outputs, which left values out or
read past the end.
---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 05ac3df..5bd61ac 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -329,7 +329,7 @@ namespace happyml {
                 for (int i = 0; i < testDataset->getExpectedShapes().size(); i++) {
                     auto best_prediction = prediction[i];
                     auto best_actual = actual[i];
-                    for (int j = 0; j < prediction.size(); j++) {
+                    for (int j = 0; j < best_prediction->size(); j++) {
                         if (!roughlyEqual(std::round(best_prediction->getValue(j)), std::round(best_actual->getValue(j)))) {
                             matched_all = false;
                             break;
-- 
2.43.0


From 677c005d1c264ca11aa25703eb453eabfeb714b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:28 +0000
Subject: [PATCH 28/70] fix: Adam could be left with one of its two moments
 when memory ran out

---
 src/ml/optimizers/adam_optimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ml/optimizers/adam_optimizer.hpp b/src/ml/optimizers/adam_optimizer.hpp
index a644d18..4da3dfa 100644
--- a/src/ml/optimizers/adam_optimizer.hpp
+++ b/src/ml/optimizers/adam_optimizer.hpp
@@ -51,7 +51,7 @@ namespace happyml {
             PROFILE_BLOCK(profileBlock);
 
             // Initialize if needed
-            if (weight_m.count(registration_id) == 0) {
+            if (weight_v.count(registration_id) == 0) { // v is stored last, so both are there if it is
                 // initialize to tensors of all 0s
                 auto immutable_zero_tensor = make_shared<UniformTensor>(weights->getShape(), 0.0f);
                 weight_m[registration_id] = immutable_zero_tensor;
@@ -71,7 +71,7 @@ namespace happyml {
             PROFILE_BLOCK(profileBlock);
 
             // Initialize if needed
-            if (bias_m.count(registration_id) == 0) {
+            if (bias_v.count(registration_id) == 0) {
                 // initialize to tensors of all 0s
                 auto immutable_zero_tensor = make_shared<UniformTensor>(bias->getShape(), 0.0f);
                 bias_m[registration_id] = immutable_zero_tensor;
-- 
2.43.0


From c497ed5ae5e8eabc1a42c8a54aa3b708706ee4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 29/70] fix: smooth absolute error was quadratic everywhere,
 its third operand was lost

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index 4ebe0b8..17376a6 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -741,7 +741,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 2210c8c6e11dd8e29172fca3c02a8e0523966c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 30/70] fix: create dataset publishes only complete datasets
 and keeps its intermediate files to itself

Intermediates were written next to the source under names the user may use, tsv and txt
sources never opened because of the file:// prefix, and dataset.bin was filled in place, so
an interrupted create left a truncated dataset that counts as existing.
---
 .../statements/create_dataset_statement.hpp   | 43 +++++++++++++++----
 src/util/dataset_utils.hpp                    |  5 ++-
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8eda412..94fa7a3 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -100,20 +100,33 @@ namespace happyml {
             size_t last_period_offset = location_.find_last_of('.');
             string file_extension = location_.substr(last_period_offset + 1);
             auto index_of_start_of_file_name = location_.find("://") + 3;
-            string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
-            string current_location = base_file_path + ".csv";
+            string current_location = location_.substr(index_of_start_of_file_name);
             bool has_header = has_header_;
+            // intermediate files live in the folder of the dataset, so they can't replace any file of the user.
+            string new_dataset_path = context->get_dataset_path(name_);
+            IntermediateFiles intermediate_files;
+            string converted_location = new_dataset_path + "/converted.csv";
+            string organized_location = new_dataset_path + "/given-expected.csv";
+            string sorted_location = new_dataset_path + "/sorted.csv";
+            filesystem::create_directories(new_dataset_path);
+            intermediate_files.add(converted_location);
+            intermediate_files.add(organized_location);
+            intermediate_files.add(sorted_location);
+            intermediate_files.add(new_dataset_path + "/raw.bin");
+            intermediate_files.add(new_dataset_path + "/dataset.bin.incomplete");
             if (file_extension == "txt") {
                 has_header = false;
-                if (!convert_txt_to_csv(location_, current_location, 4000)) {
+                if (!convert_txt_to_csv(current_location, converted_location, 4000)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert text to csv.");
                 }
+                current_location = converted_location;
             } else if (file_extension == "tsv") {
-                if (!convert_tsv_to_csv(location_, current_location)) {
+                if (!convert_tsv_to_csv(current_location, converted_location)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert tsv to csv.");
                 }
+                current_location = converted_location;
             } else if (file_extension != "csv") {
                 return make_shared<ExecutionResult>(false, false,
                                                     "create dataset only supports .csv, .txt, and .tsv file types at the moment.");
@@ -156,7 +169,6 @@ namespace happyml {
             if(verbose_) {
                 cout << "Moving given columns before expected columns and dropping unused columns. This aids in deduping." << endl;
             }
-            auto organized_location = base_file_path + ".given-expected.csv";
             if (!update_column_positions(current_location, organized_location, given_column_groups, expected_column_groups, has_header)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Empty dataset");
@@ -165,7 +177,6 @@ namespace happyml {
             if(verbose_) {
                 cout << "Sorting. This aids in deduping." << endl;
             }
-            auto sorted_location = base_file_path + ".sorted.csv";
             if (!FileSorter::sort(organized_location, sorted_location, false)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Could not sort the given-expected file.");
@@ -175,8 +186,6 @@ namespace happyml {
                                                     "Could not remove the given-expected file.");
             }
 
-            string new_dataset_path = context->get_dataset_path(name_);
-
             if(verbose_) {
                 cout << "Converting to binary and deduping." << endl;
             }
@@ -206,6 +215,24 @@ namespace happyml {
         }
 
     private:
+        // removes whatever is left of the files it knows, also when creating the dataset fails.
+        class IntermediateFiles {
+        public:
+            void add(const string &path) {
+                paths_.push_back(path);
+            }
+
+            ~IntermediateFiles() {
+                for (const auto &path: paths_) {
+                    error_code ignored;
+                    filesystem::remove(path, ignored);
+                }
+            }
+
+        private:
+            vector<string> paths_;
+        };
+
         string name_;
         string location_;
         vector<shared_ptr<ColumnGroup>> column_groups_;
diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..b06a9e7 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -254,8 +254,10 @@ namespace happyml {
             }
         }
 
+        // the dataset only appears under its own name once it is complete
         auto new_dataset_path = dataset_path + "/dataset.bin";
-        BinaryDatasetWriter binaryDatasetWriter(new_dataset_path, given_metadata, expected_metadata, 0);
+        auto incomplete_dataset_path = new_dataset_path + ".incomplete";
+        BinaryDatasetWriter binaryDatasetWriter(incomplete_dataset_path, given_metadata, expected_metadata, 0);
         size_t row_count = binaryDatasetReader.rowCount();
         for (size_t index = 0; index < row_count; ++index) {
             auto row = binaryDatasetReader.readRow(index);
@@ -275,6 +277,7 @@ namespace happyml {
         }
         binaryDatasetWriter.close();
         binaryDatasetReader.close();
+        filesystem::rename(incomplete_dataset_path, new_dataset_path);
     }
 
 
-- 
2.43.0


From 86f63f1c7b3cee9cec5eea0e5b3e443ab6acf768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 31/70] fix: a source record with too few columns is an error

The missing columns were read out of bounds.
---
 src/training_data/training_dataset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 044bb9e..1d0241a 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -353,12 +353,12 @@ namespace happyml {
             vector<string> new_record;
             for (const auto &column: given_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
-                    new_record.push_back(record[column->start_index_ + i]);
+                    new_record.push_back(record.at(column->start_index_ + i));
                 }
             }
             for (const auto &column: expected_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
-                    new_record.push_back(record[column->start_index_ + i]);
+                    new_record.push_back(record.at(column->start_index_ + i));
                 }
             }
             writer.writeRecord(new_record);
-- 
2.43.0


From f8b64b1ff8bd0f6b7661117aca737abe3ce2ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 32/70] fix: a dataset that cannot be opened right now still
 exists

create dataset took a failed open for a missing dataset and replaced it.
---
 src/lang/execution_context.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lang/execution_context.hpp b/src/lang/execution_context.hpp
index 72e9b84..f7c4ef5 100644
--- a/src/lang/execution_context.hpp
+++ b/src/lang/execution_context.hpp
@@ -8,6 +8,7 @@
 
 #include <string>
 #include <memory>
+#include <filesystem>
 #include "../ml/byte_pair_encoder.hpp"
 
 #define DEFAULT_HAPPYML_REPO_PATH "../happyml_repo/"
@@ -47,12 +48,7 @@ namespace happyml {
 
         static bool dataset_exists(const string &dataset_name) {
             string bin_path = get_dataset_path(dataset_name) + "/dataset.bin";
-            ifstream f(bin_path.c_str());
-            if (f.good()) {
-                f.close();
-                return true;
-            }
-            return false;
+            return filesystem::exists(bin_path);
         }
 
     private:
-- 
2.43.0


From 69eb8ff4666ca02052e75c081cbf5fd545f9b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 33/70] fix: stored numbers can be decoded back to the source's
 values

A constant column was normalized by a range of zero (NaN), and standardized columns were
normalized by the range of the raw values, which loses most of the precision of large values.
---
 src/util/dataset_utils.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index b06a9e7..39eb8f8 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -173,6 +173,19 @@ namespace happyml {
         return next_metadata;
     }
 
+    // values are standardized before they are normalized, so the limits have to be those of the standardized values.
+    // a column with a single value has no range that it could be normalized to.
+    void set_normalization(const shared_ptr<BinaryColumnMetadata> &metadata, bool is_numeric_value,
+                           const shared_ptr<StandardizationAndNormalizationValues> &values) {
+        metadata->min_value = (float) values->min_value;
+        metadata->max_value = (float) values->max_value;
+        if (metadata->is_standardized) {
+            metadata->min_value = (metadata->min_value - metadata->mean) / metadata->standard_deviation;
+            metadata->max_value = (metadata->max_value - metadata->mean) / metadata->standard_deviation;
+        }
+        metadata->is_normalized = is_numeric_value && metadata->max_value > metadata->min_value;
+    }
+
     void normalize_and_standardize_dataset(const string &raw_binary_file,
                                            const string &dataset_path) {
 
@@ -236,9 +249,7 @@ namespace happyml {
                     given_metadata[i]->is_standardized = is_numeric_value && given_standardization_values[i]->standard_deviation > 1.0;
                     given_metadata[i]->mean = (float) given_standardization_values[i]->mean_result;
                     given_metadata[i]->standard_deviation = (float) given_standardization_values[i]->standard_deviation;
-                    given_metadata[i]->is_normalized = is_numeric_value;
-                    given_metadata[i]->min_value = (float) given_standardization_values[i]->min_value;
-                    given_metadata[i]->max_value = (float) given_standardization_values[i]->max_value;
+                    set_normalization(given_metadata[i], is_numeric_value, given_standardization_values[i]);
                 }
             }
             if (expected_has_numbers) {
@@ -247,9 +258,7 @@ namespace happyml {
                     expected_metadata[i]->is_standardized = is_numeric_value && expected_standardization_values[i]->standard_deviation > 1.0;
                     expected_metadata[i]->mean = (float) expected_standardization_values[i]->mean_result;
                     expected_metadata[i]->standard_deviation = (float) expected_standardization_values[i]->standard_deviation;
-                    expected_metadata[i]->is_normalized = is_numeric_value;
-                    expected_metadata[i]->min_value = (float) expected_standardization_values[i]->min_value;
-                    expected_metadata[i]->max_value = (float) expected_standardization_values[i]->max_value;
+                    set_normalization(expected_metadata[i], is_numeric_value, expected_standardization_values[i]);
                 }
             }
         }
-- 
2.43.0


From a88e352cb71b18ccfc12de85072be8f480650590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:54 +0000
Subject: [PATCH 34/70] fix: a created dataset records its source column counts

The final dataset file stored uninitialized memory instead.
---
 src/util/dataset_utils.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 39eb8f8..61a48e0 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -156,9 +156,11 @@ namespace happyml {
     shared_ptr<BinaryColumnMetadata> initialize_column_metadata(const vector<size_t> &dims,
                                                                 char purpose,
                                                                 vector<string> ordered_labels,
-                                                                string name) {
+                                                                string name,
+                                                                uint64_t source_column_count) {
         auto next_metadata = make_shared<BinaryColumnMetadata>();
         next_metadata->purpose = purpose;
+        next_metadata->source_column_count = source_column_count;
         next_metadata->rows = dims[0];
         next_metadata->columns = dims[1];
         next_metadata->channels = dims[2];
@@ -199,7 +201,8 @@ namespace happyml {
             shared_ptr<BinaryColumnMetadata> next_metadata = initialize_column_metadata(binaryDatasetReader.getGivenTensorDims(i),
                                                                                         binaryDatasetReader.getGivenTensorPurpose(i),
                                                                                         binaryDatasetReader.getGivenTensorOrderedLabels(i),
-                                                                                        binaryDatasetReader.get_given_name(i));
+                                                                                        binaryDatasetReader.get_given_name(i),
+                                                                                        binaryDatasetReader.get_given_metadata(i)->source_column_count);
             given_metadata.emplace_back(next_metadata);
             given_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (given_metadata[i]->purpose == 'N') {
@@ -214,7 +217,8 @@ namespace happyml {
             shared_ptr<BinaryColumnMetadata> next_metadata = initialize_column_metadata(binaryDatasetReader.getExpectedTensorDims(i),
                                                                                         binaryDatasetReader.getExpectedTensorPurpose(i),
                                                                                         binaryDatasetReader.getExpectedTensorOrderedLabels(i),
-                                                                                        binaryDatasetReader.get_expected_name(i));
+                                                                                        binaryDatasetReader.get_expected_name(i),
+                                                                                        binaryDatasetReader.get_expected_metadata(i)->source_column_count);
             expected_metadata.emplace_back(next_metadata);
             expected_standardization_values.emplace_back(make_shared<StandardizationAndNormalizationValues>());
             if (expected_metadata[i]->purpose == 'N') {
-- 
2.43.0


From 0cc995657acca1d5fd72baf71b3bfc6c37705014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 35/70] fix: labels keep their meaning across datasets

The one-hot column of a label followed the hash order of that dataset's own labels, so a
dataset read with another dataset's metadata (a test dataset) had its labels mixed up.
---
 src/util/dataset_utils.hpp |  2 ++
 src/util/file_reader.hpp   | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 61a48e0..8f83601 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -338,6 +338,8 @@ namespace happyml {
                                                           header_row,
                                                           true);
                 vector<string> distinctValuesVector(distinctValues.begin(), distinctValues.end());
+                // the same labels have the same order in every dataset
+                std::sort(distinctValuesVector.begin(), distinctValuesVector.end());
                 columnGroupEncoders.emplace_back(make_shared<ColumnGroup>(column_group, distinctValuesVector), make_shared<TextToUniqueCategoryEncoder>(distinctValuesVector));
             } else if ("text" == column_group->data_type_) {
                 //columnGroupEncoders.emplace_back(make_shared<ColumnGroup>(*column_group), make_shared<TextToEmbeddedTokensEncoder>(defaultBytePairEncoder));
diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index af67796..a39acc7 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -258,6 +258,7 @@ namespace happyml {
             for (const auto &metadata: given_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_given_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_given_metadata_[given_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -273,6 +274,7 @@ namespace happyml {
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_expected_metadata_[expected_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -305,6 +307,9 @@ namespace happyml {
             if (index >= expected_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
+            if (!renormalize_expected_metadata_.empty() && expected_metadata_[index]->purpose == 'L') {
+                return {expected_metadata_[index]->rows, renormalize_expected_metadata_[index]->columns, expected_metadata_[index]->channels};
+            }
             return {expected_metadata_[index]->rows, expected_metadata_[index]->columns, expected_metadata_[index]->channels};
         }
 
@@ -312,6 +317,9 @@ namespace happyml {
             if (index >= given_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
+            if (!renormalize_given_metadata_.empty() && given_metadata_[index]->purpose == 'L') {
+                return {given_metadata_[index]->rows, renormalize_given_metadata_[index]->columns, given_metadata_[index]->channels};
+            }
             return {given_metadata_[index]->rows, given_metadata_[index]->columns, given_metadata_[index]->channels};
         }
 
@@ -417,6 +425,30 @@ namespace happyml {
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_given_metadata_;
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_expected_metadata_;
 
+        // which column of a one-hot encoded label stands for which label differs from dataset to dataset
+        static shared_ptr<BaseTensor> relabel(const shared_ptr<BaseTensor> &tensor,
+                                              const shared_ptr<BinaryColumnMetadata> &from,
+                                              const shared_ptr<BinaryColumnMetadata> &to) {
+            if (from->purpose != 'L' || from->ordered_labels == to->ordered_labels) {
+                return tensor;
+            }
+            vector<vector<vector<float>>> values(from->channels, vector<vector<float>>(from->rows, vector<float>(to->columns, 0.0f)));
+            for (size_t column = 0; column < from->ordered_labels.size(); column++) {
+                const string &label = from->ordered_labels[column];
+                size_t new_column = std::find(to->ordered_labels.begin(), to->ordered_labels.end(), label) - to->ordered_labels.begin();
+                for (size_t channel = 0; channel < from->channels; channel++) {
+                    for (size_t row = 0; row < from->rows; row++) {
+                        float value = tensor->getValue(row, column, channel);
+                        if (new_column < to->ordered_labels.size()) {
+                            values[channel][row][new_column] = value;
+                        } else if (value != 0.0f) {
+                            throw runtime_error("Unknown label " + label + " for column: " + from->name);
+                        }
+                    }
+                }
+            }
+            return make_shared<FullTensor>(values);
+        }
 
         void readHeader() {
             row_size_ = 0;
-- 
2.43.0


From 5e83d83fb9ba14843c96d46d541611f6f8a4d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 36/70] fix: executing a task on a dataset encodes and decodes
 as the task was trained

Values were normalized by the executed dataset's own statistics and predictions were named
by that dataset's labels instead of those of the task.
---
 src/util/task_utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 3cc1929..11a9a91 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -178,20 +178,20 @@ namespace happyml {
         auto loadedNeuralNetwork = loadNeuralNetworkForTraining(task_name,
                                                                 task_folder_path);
 
-        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
-        BinaryDatasetReader reader(dataset_full_file_path);
+        // the model only understands values that are encoded like those it was trained with
+        BinaryDatasetReader reader(task_full_path + "/dataset.bin");
         vector<shared_ptr<RawDecoder>> given_decoders = build_given_decoders(false, reader);
         vector<shared_ptr<RawDecoder>> expected_decoders = build_expected_decoders(false, reader);
         vector<string> given_column_names = reader.get_given_names();
         vector<string> expected_column_names = reader.get_expected_names();
         auto given_metadata = reader.get_given_metadata();
-        auto expected_metadata = reader.get_expected_metadata();
         reader.close();
 
+        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
         vector<string> merged_headers = pretty_print_merge_headers(expected_column_names, given_column_names);
         vector<size_t> widths;
         cout << "Results: " << endl;
-        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, expected_metadata);
+        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, vector<shared_ptr<BinaryColumnMetadata>>());
         auto nextRecord = dataset->nextRecord();
         while (nextRecord) {
             auto given_values = nextRecord->getGiven();
-- 
2.43.0


From e2b95def09424988f08df557eea0cfbb5b59d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 37/70] fix: an interrupted create task can be repeated

A task whose dataset metadata was missing or cut short counted as existing for good.
---
 src/util/task_utils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 11a9a91..8f2edcd 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -405,7 +405,8 @@ namespace happyml {
             string task_full_path = task_folder_path + task_name;
             if (filesystem::exists(task_full_path)) {
                 string config = task_full_path + "/model.config";
-                if (filesystem::exists(config)) {
+                // the dataset metadata is written last, a task without it can't be executed
+                if (filesystem::exists(config) && filesystem::exists(task_full_path + "/dataset.bin")) {
                     cout << "Task " << task_name << " already exists. Skipping." << endl;
                     return true;
                 }
@@ -646,8 +647,10 @@ namespace happyml {
             neuralNetwork->saveWithOverwrite();
 
             string task_dataset_metadata_path = task_full_path + "/dataset.bin";
-            BinaryDatasetWriter writer(task_dataset_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
+            string incomplete_metadata_path = task_dataset_metadata_path + ".incomplete";
+            BinaryDatasetWriter writer(incomplete_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
             writer.close();
+            filesystem::rename(incomplete_metadata_path, task_dataset_metadata_path);
             reader.close();
             log_file.close();
         } catch (exception &e) {
-- 
2.43.0


From e32383bc0ce02112fd463f0c81d494d988248f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 38/70] fix: create task gives up after its retries

The retry counter was reset in every round, so a dataset that can't be learned kept it busy forever.
---
 src/util/task_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 8f2edcd..05ca89a 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -510,8 +510,8 @@ namespace happyml {
             int attempt = 0;
             float next_search_size = 640.0f;
 
+            int retries = 0;
             while (!found) {
-                int retries = 0;
                 float best_accuracy = 0.0f;
                 string best_attempt_key;
                 shared_ptr<BinaryDataSet> searchDataSource;
-- 
2.43.0


From 59bc5a712f5b9d0cfac0f243d32a8507c66aa8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 39/70] fix: inputs of execute task are encoded as in the
 source files

Rows and columns were swapped and pixels were not scaled, so images and labels given as input
did not have the shape and values the model was trained with.
---
 src/training_data/data_encoder.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 0403239..ec32591 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -81,11 +81,11 @@ namespace happyml {
                 std::vector<std::vector<std::vector<float>>> floats;
                 floats.resize(metadata->channels);
                 for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
+                    floats[channel].resize(metadata->rows);
+                    for (size_t row = 0; row < metadata->rows; row++) {
+                        floats[channel][row].resize(metadata->columns);
+                        for (size_t column = 0; column < metadata->columns; column++) {
+                            floats[channel][row][column] = text.at((channel * metadata->rows + row) * metadata->columns + column).as_float() / 255.f;
                         }
                     }
                 }
@@ -96,11 +96,11 @@ namespace happyml {
                 std::vector<std::vector<std::vector<float>>> floats;
                 floats.resize(metadata->channels);
                 for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
+                    floats[channel].resize(metadata->rows);
+                    for (size_t row = 0; row < metadata->rows; row++) {
+                        floats[channel][row].resize(metadata->columns);
+                        for (size_t column = 0; column < metadata->columns; column++) {
+                            floats[channel][row][column] = text.at((channel * metadata->rows + row) * metadata->columns + column).as_float();
                         }
                     }
                 }
@@ -130,11 +130,11 @@ namespace happyml {
                     vector<vector<vector<float>>> result;
                     result.resize(metadata->channels);
                     for (size_t channel = 0; channel < metadata->channels; channel++) {
-                        result[channel].resize(metadata->columns);
-                        for (size_t column = 0; column < metadata->columns; column++) {
-                            result[channel][column].resize(metadata->rows);
-                            for (size_t row = 0; row < metadata->rows; row++) {
-                                result[channel][column][row] = column == column_offset ? 1.f : 0.f;
+                        result[channel].resize(metadata->rows);
+                        for (size_t row = 0; row < metadata->rows; row++) {
+                            result[channel][row].resize(metadata->columns);
+                            for (size_t column = 0; column < metadata->columns; column++) {
+                                result[channel][row][column] = column == column_offset ? 1.f : 0.f;
                             }
                         }
                     }
-- 
2.43.0


From c6ab4560fdc963625c4c5a52a522e9873bb431a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 40/70] fix: exit stops a script

Statements after exit were still executed and the request to exit was lost.
---
 src/lang/statements/code_block_statement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index 2f03fcd..f18270b 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -24,7 +24,7 @@ namespace happyml {
                 lastResult = child->execute(context);
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
-                if (!lastResult->isSuccessful()) {
+                if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
                     break;
                 }
             }
-- 
2.43.0


From 21f97d8a43e07360097232b871864a0cf7a72e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 41/70] fix: a script that cannot be read is an error

It was taken for an empty or a shorter script.
---
 src/lang/interpreter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 48d35d3..c269e12 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -52,6 +52,11 @@ namespace happyml {
                 stream.open(filePath, ifstream::in);
                 stringstream fullText;
                 fullText << stream.rdbuf();
+                if (!stream.is_open() || fullText.bad()) {
+                    string message = "Failed to load: " + filePath;
+                    cerr << message << endl;
+                    throw runtime_error(message);
+                }
                 try {
                     done = interpretCommands(fullText.str(), filePath);
                 } catch (const exception &e) {
-- 
2.43.0


From d2b884d1ef6ae1600e10163dcfaf1ce49283db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 42/70] fix: an interactive session survives failing and empty
 lines

An exception ended the session and an empty line read before the start of the string.
---
 src/lang/interpreter.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index c269e12..98c477b 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -79,22 +79,27 @@ namespace happyml {
             std::string nextLine, fullLine;
             cout << "> ";
             while (std::getline(std::cin, nextLine)) {
-                nextLine = trimEnd(nextLine);
-                if (nextLine.back() == '\\') {
-                    // Remove the backslash and add the line to the buffer
-                    nextLine.pop_back();
-                    fullLine += nextLine + '\n';
-                } else {
+                try {
+                    nextLine = trimEnd(nextLine);
+                    if (!nextLine.empty() && nextLine.back() == '\\') {
+                        // Remove the backslash and add the line to the buffer
+                        nextLine.pop_back();
+                        fullLine += nextLine + '\n';
+                        continue;
+                    }
                     // Add the line to the buffer and interpret the command
                     fullLine += nextLine;
                     const bool done = interpretCommands(fullLine, "cli");
                     if (done) {
                         break;
                     }
-                    // Reset the buffer for the next command
-                    fullLine.clear();
-                    cout << "> ";
+                } catch (const exception &e) {
+                    // a failing command doesn't end the session
+                    cerr << e.what() << endl;
                 }
+                // Reset the buffer for the next command
+                fullLine.clear();
+                cout << "> ";
             }
         }
 
-- 
2.43.0


From af124673a1583a4675bb5e0e7cff701196092933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:31 +0000
Subject: [PATCH 43/70] fix: creating a dataset succeeded without its records
 when an intermediate file could not be opened

---
 src/util/dataset_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 8f83601..da5ceca 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -49,6 +49,9 @@ namespace happyml {
                                                bool header_row,
                                                bool trim_strings) {
         DelimitedTextFileReader delimitedTextFileReader(path, delimiter, header_row);
+        if (!delimitedTextFileReader.is_open()) {
+            throw runtime_error("Could not read file " + path);
+        }
 
         unordered_set <string> distinctValues;
         while (delimitedTextFileReader.hasNext()) {
@@ -362,6 +365,9 @@ namespace happyml {
 
 
         DelimitedTextFileReader delimitedTextFileReader(delimited_file_path, delimiter, header_row);
+        if (!delimitedTextFileReader.is_open()) {
+            throw runtime_error("Could not read file " + delimited_file_path);
+        }
 
         vector<shared_ptr<BinaryColumnMetadata>> given_metadata;
         vector<shared_ptr<BinaryColumnMetadata>> expected_metadata;
-- 
2.43.0


From 8215448544c24d91d0f92691a4a390507c9e5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:31 +0000
Subject: [PATCH 44/70] fix: a delimited record could be written incomplete
 when memory ran out

---
 src/util/file_writer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index b64be99..e17be90 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -72,7 +72,7 @@ namespace happyml {
 
         void writeRecord(const vector<string> &record) {
             string currentDelimiter;
-            stringstream combinedRecord;
+            string combinedRecord;
             for (const string &column: record) {
                 auto stripped_column = strip(column);
                 auto stripped_column_length = stripped_column.length();
@@ -89,11 +89,11 @@ namespace happyml {
                         stripped_column = "\"" + encoded_column + "\"";
                     }
                 }
-                combinedRecord << currentDelimiter << stripped_column;
+                combinedRecord += currentDelimiter + stripped_column;
                 currentDelimiter = delimiter_;
             }
 
-            line_writer_.writeLine(combinedRecord.str());
+            line_writer_.writeLine(combinedRecord);
         }
 
         bool is_open() {
-- 
2.43.0


From 325038cb61b470bef890a3d7d15d09d2837e5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:50 +0000
Subject: [PATCH 45/70] fix: encoded text could lose characters when memory ran
 out

---
 src/util/text_encoder_decoder.hpp | 35 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/util/text_encoder_decoder.hpp b/src/util/text_encoder_decoder.hpp
index ba58896..5c4d349 100644
--- a/src/util/text_encoder_decoder.hpp
+++ b/src/util/text_encoder_decoder.hpp
@@ -16,54 +16,57 @@ namespace happyml {
     class TextEncoderDecoder {
     public:
         static string encodeString(const string &str, const char delimiter) {
-            stringstream encoded;
+            string encoded;
             for (char c: str) {
                 if (c == '<') {
-                    encoded << "<_<";
+                    encoded += "<_<";
                 } else if (c == delimiter) {
-                    encoded << "<~D>";
+                    encoded += "<~D>";
                 } else if (c == '\n') {
-                    encoded << "<~N>";
+                    encoded += "<~N>";
                 } else {
-                    encoded << c;
+                    encoded += c;
                 }
             }
-            return encoded.str();
+            return encoded;
         }
 
         static string decodeString(const string &str, const char delimiter) {
-            stringstream decoded;
+            string decoded;
             for (size_t i = 0; i < str.size(); ++i) {
                 if (str[i] == '<' && i + 2 < str.size()) {
                     ++i;
                     if (str[i] == '_') {
                         ++i;
                         if (str[i] == '<') {
-                            decoded << '<';
+                            decoded += '<';
                         } else if (str[i] == '_') {
-                            decoded << "<_";
+                            decoded += "<_";
                         } else {
-                            decoded << '<' << str[i];
+                            decoded += '<';
+                            decoded += str[i];
                         }
                     } else if (str[i] == '~' && i + 2 < str.size()) {
                         ++i;
                         if (str[i] == 'D' && str[i + 1] == '>') {
-                            decoded << delimiter;
+                            decoded += delimiter;
                             ++i; // Move past the '>'
                         } else if (str[i] == 'N' && str[i + 1] == '>') {
-                            decoded << '\n';
+                            decoded += '\n';
                             ++i; // Move past the '>'
                         } else {
-                            decoded << '<' << str[i];
+                            decoded += '<';
+                            decoded += str[i];
                         }
                     } else {
-                        decoded << '<' << str[i];
+                        decoded += '<';
+                        decoded += str[i];
                     }
                 } else {
-                    decoded << str[i];
+                    decoded += str[i];
                 }
             }
-            return decoded.str();
+            return decoded;
         }
     };
 
-- 
2.43.0


From 9ab9e16b849d1740575266334fef316ccdaa81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:49 +0000
Subject: [PATCH 46/70] fix: creating a task crashed when every training
 attempt failed, and could save a network whose training failed

---
 src/util/task_utils.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 05ca89a..6c5d449 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -343,16 +343,16 @@ namespace happyml {
                                                              vector<shared_ptr<RawDecoder>> &expected_decoders, float target_accuracy, int attempt, double complexity_modifier, float learningRateAdjustmentFactor, ofstream &log_file,
                                                              shared_ptr<BinaryDataSet> &dataSource, BinaryDatasetReader &reader, shared_ptr<NeuralNetworkForTraining> &neuralNetwork) {
         shared_ptr<TrainingResult> attempt_result;
-        neuralNetwork = build_neural_network_for_label(task_name, task_folder_path, goal, dataSource, reader, learningRateAdjustmentFactor, optimizerType, lossType, activationType,
+        auto attemptNetwork = build_neural_network_for_label(task_name, task_folder_path, goal, dataSource, reader, learningRateAdjustmentFactor, optimizerType, lossType, activationType,
                                                        complexity_modifier);
-        neuralNetwork->setExitStrategy(exit_strategy);
+        attemptNetwork->setExitStrategy(exit_strategy);
         try {
             if (testDataSource == nullptr) {
-                attempt_result = neuralNetwork->train(dataSource, max_batch_size);
-                attempt_result->accuracy = neuralNetwork->compute_categorical_accuracy(dataSource, expected_decoders);
+                attempt_result = attemptNetwork->train(dataSource, max_batch_size);
+                attempt_result->accuracy = attemptNetwork->compute_categorical_accuracy(dataSource, expected_decoders);
             } else {
-                attempt_result = neuralNetwork->train(dataSource, testDataSource, max_batch_size);
-                attempt_result->accuracy = neuralNetwork->compute_categorical_accuracy(testDataSource, expected_decoders);
+                attempt_result = attemptNetwork->train(dataSource, testDataSource, max_batch_size);
+                attempt_result->accuracy = attemptNetwork->compute_categorical_accuracy(testDataSource, expected_decoders);
             }
             attempt_result->learningRateAdjustmentFactor = learningRateAdjustmentFactor;
             attempt_result->complexity_modifier = complexity_modifier;
@@ -375,14 +375,17 @@ namespace happyml {
             log_file << "\tTime: " << attempt_result->training_time_ms << endl;
             log_file << "\tLearning rate adjustment factor: " << learningRateAdjustmentFactor << endl;
             log_file << "\tComplexity modifier: " << complexity_modifier << endl;
-            log_file << "Parameters: " << neuralNetwork->get_total_parameters() << endl;
+            log_file << "Parameters: " << attemptNetwork->get_total_parameters() << endl;
             log_file << "Batch size: " << max_batch_size << endl;
             log_file << "Learning rate: " << attempt_result->learning_rate << endl;
             log_file << "Trained: " << (attempt_result->trained ? "true" : "false") << endl;
             log_file << "Generalized: " << (attempt_result->generalized ? "true" : "false") << endl;
             log_file << "Accuracy: " << fixed << setprecision(2) << (attempt_result->accuracy * 100) << "%" << endl;
+            neuralNetwork = attemptNetwork;
         } catch (const exception &e) {
-            attempt_result = make_shared<TrainingResult>();
+            cout << "Attempt failed: " << e.what() << endl;
+            log_file << "Attempt failed: " << e.what() << endl;
+            return nullptr;
         }
         return attempt_result;
     }
@@ -557,6 +560,9 @@ namespace happyml {
                                                                                               expected_decoders, target_accuracy, attempt,
                                                                                               complexity_modifier, learningRateAdjustmentFactor, log_file,
                                                                                               searchDataSource, reader, neuralNetwork);
+                    if (attempt_result == nullptr) {
+                        continue;
+                    }
                     next_results.push_back(attempt_result);
                     if (attempt_result->accuracy > best_accuracy) {
                         best_accuracy = attempt_result->accuracy;
@@ -569,6 +575,9 @@ namespace happyml {
                         break;
                     }
                 }
+                if (next_results.empty()) {
+                    throw runtime_error("Every attempt to train " + task_name + " failed.");
+                }
                 if (!found) {
                     cout << "Best accuracy: " << (best_accuracy * 100) << "%" << endl;
                     log_file << "Best accuracy: " << (best_accuracy * 100) << "%" << endl;
-- 
2.43.0


From 2d1bdd445ae7335dbc0ed9ba9423d2f8136224ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 47/70] fix: a script that could not be read completely was
 executed as if it was shorter

---
 src/lang/interpreter.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 98c477b..e14a0ac 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -50,15 +50,15 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(filePath, ifstream::in);
-                stringstream fullText;
-                fullText << stream.rdbuf();
-                if (!stream.is_open() || fullText.bad()) {
+                if (!stream.is_open()) {
                     string message = "Failed to load: " + filePath;
                     cerr << message << endl;
                     throw runtime_error(message);
                 }
+                // throws if the file can't be read completely
+                string fullText{istreambuf_iterator<char>(stream), istreambuf_iterator<char>()};
                 try {
-                    done = interpretCommands(fullText.str(), filePath);
+                    done = interpretCommands(fullText, filePath);
                 } catch (const exception &e) {
                     cerr << "Failed to interpret: " << filePath << endl << e.what() << endl;
                     throw e;
-- 
2.43.0


From ee9a3bfb76674de58e6b0716b77b5a0a9de7f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 48/70] fix: running out of memory while removing intermediate
 files ended the process

---
 src/lang/statements/create_dataset_statement.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 94fa7a3..8af7714 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -6,6 +6,7 @@
 #ifndef HAPPYML_CREATE_DATASET_STATEMENT_HPP
 #define HAPPYML_CREATE_DATASET_STATEMENT_HPP
 
+#include <cstdio>
 #include <vector>
 #include <utility>
 #include <iostream>
@@ -224,8 +225,7 @@ namespace happyml {
 
             ~IntermediateFiles() {
                 for (const auto &path: paths_) {
-                    error_code ignored;
-                    filesystem::remove(path, ignored);
+                    std::remove(path.c_str()); // never throws
                 }
             }
 
-- 
2.43.0


From 45ef49118de85a93e643cf01474af34726a740b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 49/70] fix: training a tokenizer on an empty text read past
 its end

---
 src/ml/byte_pair_encoder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1ed6c8e..1a4245d 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -451,7 +451,7 @@ namespace happyml {
                 // in a more compact vocabulary the second call to train()
                 // It LOOKS like it works, which is why I'm leaving it in.
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     // If the character pair is already in the vocab unordered_map, increment its frequency; otherwise, add it to the vocab unordered_map with a frequency of 1.
                     auto exiting_entry = vocab.find(
@@ -619,7 +619,7 @@ namespace happyml {
                     char c = buffer[i];
                     append_character(c, last_char, token, [&vocab, this](const std::string &new_token) {
                         u16string line16 = this->encode(new_token);
-                        for (size_t i = 0; i < line16.size() - 1; ++i) {
+                        for (size_t i = 0; i + 1 < line16.size(); ++i) {
                             u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                             auto existing_entry = vocab.find(pair);
                             if (existing_entry != vocab.end()) {
@@ -635,7 +635,7 @@ namespace happyml {
             // Process any remaining data after the buffer read
             if (!token.empty()) {
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     auto existing_entry = vocab.find(pair);
                     if (existing_entry != vocab.end()) {
-- 
2.43.0


From de38045ff139a8529eee8813f90fd9ed3eda3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 50/70] fix: a tokenizer trained on a folder depended on the
 order of the directory

---
 src/ml/byte_pair_encoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1a4245d..34c5348 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -166,6 +166,8 @@ namespace happyml {
                     files_found = true;
                 }
             }
+            // directories have no particular order, but what is learned depends on it
+            sort(file_paths.begin(), file_paths.end());
             unordered_map<u16string, size_t> vocab;
             for (const auto &file_path: file_paths) {
                 file_count++;
-- 
2.43.0


From 9e04b8aa4227c5a554b361a49f20990db9355de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 51/70] fix: a tokenizer was trained on the part of a file that
 could be read

---
 src/ml/byte_pair_encoder.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 34c5348..acb4a83 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -133,6 +133,10 @@ namespace happyml {
             std::ifstream file(filename);
             if (file.is_open()) {
                 buildVocab(file, show_progress_, vocab);
+                if (!file.eof()) {
+                    std::cerr << "Unable to read file: " << filename << std::endl;
+                    return false;
+                }
                 file.close();
             } else {
                 std::cerr << "Unable to open file: " << filename << std::endl;
@@ -179,6 +183,10 @@ namespace happyml {
                 std::ifstream file(file_path);
                 if (file.is_open()) {
                     buildVocab(file, false, vocab);
+                    if (!file.eof()) {
+                        std::cerr << "Unable to read file: " << file_path << std::endl;
+                        return false;
+                    }
                     file.close();
                 } else {
                     {
-- 
2.43.0


From ac829a023c2308084210cf88d3135e195b092c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:29 +0000
Subject: [PATCH 52/70] fix: a tokenizer file that was not written or read
 completely was accepted, and loading added to what a tokenizer already knew

---
 src/ml/byte_pair_encoder.hpp | 42 +++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index acb4a83..f070df3 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -535,7 +535,9 @@ namespace happyml {
             string const fullKnowledgePath = initialize_knowledge_path_directory(modelFolderPath, knowledgeLabel,
                                                                                  overwrite);
             string const filePath = fullKnowledgePath + "/" + name_ + ".bpe";
-            std::ofstream file(filePath, std::ios::binary);
+            // only a complete file gets the final name
+            string const incompletePath = filePath + ".incomplete";
+            std::ofstream file(incompletePath, std::ios::binary);
 
             if (!file.is_open()) {
                 return false;
@@ -553,7 +555,12 @@ namespace happyml {
             }
 
             file.close();
-            return true;
+            if (file.fail()) {
+                return false;
+            }
+            std::error_code error;
+            filesystem::rename(incompletePath, filePath, error);
+            return !error;
         }
 
         bool load(const string &modelFolderPath, const string &knowledgeLabel) {
@@ -565,30 +572,35 @@ namespace happyml {
             }
 
             uint16_t delimiter_code = 0;
-            file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code));
-            setDelimiterCode(delimiter_code);
+            if (!file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code))) {
+                return false;
+            }
 
-            while (!file.eof()) {
+            vector<pair<u16string, u16string>> ordered_bpe_codes;
+            while (file.peek() != std::ifstream::traits_type::eof()) {
                 pair<u16string, u16string> code_pair;
                 for (auto &str: {&code_pair.first, &code_pair.second}) {
                     uint16_t str_length = 0;
-                    file.read(reinterpret_cast<char *>(&str_length), sizeof(str_length));
-
-                    if (file.eof()) {
-                        break;
+                    if (!file.read(reinterpret_cast<char *>(&str_length), sizeof(str_length))) {
+                        return false;
                     }
 
                     str->resize(str_length);
-                    file.read(const_cast<char *>(reinterpret_cast<const char *>(str->data())),
-                              static_cast<streamsize>(str_length * sizeof(char16_t)));
-                }
-
-                if (!file.eof()) {
-                    ordered_bpe_codes_.push_back(std::move(code_pair));
+                    if (!file.read(reinterpret_cast<char *>(str->data()),
+                                   static_cast<streamsize>(str_length * sizeof(char16_t)))) {
+                        return false;
+                    }
                 }
+                ordered_bpe_codes.push_back(std::move(code_pair));
+            }
+            if (file.bad()) {
+                return false;
             }
 
             file.close();
+            // replaces whatever the model knew before
+            setDelimiterCode(delimiter_code);
+            ordered_bpe_codes_.swap(ordered_bpe_codes);
             return true;
         }
 
-- 
2.43.0


From f53f460122043ca5c62b92ea2435b89b2c480ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:29 +0000
Subject: [PATCH 53/70] fix: continued training of a full tokenizer used
 reserved codes

---
 src/ml/byte_pair_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index f070df3..e2636ed 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -303,7 +303,7 @@ namespace happyml {
             size_t merge_count = 0;
             int no_improvement_counter = 0;
             ElapsedTimer mergeTimer;
-            while (!vocab.empty() && (merge_count < 1 || merge_count < num_merges)) {
+            while (!vocab.empty() && next_code_ < max_code && (merge_count < 1 || merge_count < num_merges)) {
                 auto most_frequent = findMostFrequentPair(vocab, min_frequency);
                 if (most_frequent.second == 0) {
                     break;
-- 
2.43.0


From 076021fbc1633145c03c9da0914d3b09b91534e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:29 +0000
Subject: [PATCH 54/70] fix: running out of memory while removing a temporary
 directory ended the process

---
 src/ml/neural_network.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 5bd61ac..8c3d2a4 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -143,8 +143,12 @@ namespace happyml {
         explicit TemporaryDirectoryGuard(const string &path) : path(path) {}
 
         ~TemporaryDirectoryGuard() {
-            std::error_code ignored;
-            filesystem::remove_all(path, ignored);
+            try {
+                std::error_code ignored;
+                filesystem::remove_all(path, ignored);
+            } catch (const std::exception &) {
+                // out of memory: a destructor must not throw
+            }
         }
 
     private:
-- 
2.43.0


From faf753266e2e4fc117fb1da2ff5efb15bfb4a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 55/70] hook: the number of elements from which tensor
 statistics are computed concurrently can be set with a define

---
 src/util/tensor_stats.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index 639ee72..ca55537 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -18,6 +18,11 @@ namespace happyml {
 #define FIT_BIAS_FOR_80 1
 #define FIT_BIAS_FOR_50 2
 
+// Simulations lower this to reach the concurrent code with small tensors.
+#ifndef HAPPYML_STATS_CONCURRENT_ELEMENTS
+#define HAPPYML_STATS_CONCURRENT_ELEMENTS 100000000
+#endif
+
     class TensorStats {
     public:
         explicit TensorStats(BaseTensor &source) : TensorStats(source, FIT_BIAS_FOR_80, true) {}
@@ -56,7 +61,7 @@ namespace happyml {
             // TODO: We can improve the conditions in which we are single threaded vs concurrent. This
             // works on my machine, but it isn't a general solution.
 //        cout << "elements_per_channel: " << source.elementsPerChannel() << endl;
-            if (source.elementsPerChannel() < 100000000) {
+            if (source.elementsPerChannel() < HAPPYML_STATS_CONCURRENT_ELEMENTS) {
 //            cout << "single thread" << endl;
                 for (size_t channel = 0; channel < channels; channel++) {
                     for (size_t row = 0; row < rows; row++) {
-- 
2.43.0


From ee7b79aa13c97b2f9cd02b714c85faa9bddbc4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 56/70] fix: tensor statistics computed concurrently lost bag
 values and depended on which thread finished first

---
 src/util/tensor_stats.hpp | 126 +++++++++-----------------------------
 1 file changed, 28 insertions(+), 98 deletions(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index ca55537..a4e5c51 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -267,16 +267,26 @@ namespace happyml {
             array<array<double, 2>, 256> bagCountsNegative4;
         };
 
+        // A bag is represented by the value in it that is furthest from zero. The result doesn't depend on the order in
+        // which values (or bags other threads have filled) are added.
+        static void keepFurthestFromZero(double &representative, const double val) {
+            const double distance = std::abs(val);
+            const double original = std::abs(representative);
+            if (distance > original || (distance == original && val > representative)) {
+                representative = val;
+            }
+        }
+
+        static void mergeBags(array<array<double, 2>, 256> &into, const array<array<double, 2>, 256> &from) {
+            for (size_t index = 0; index < from.size(); index++) {
+                keepFurthestFromZero(into[index][0], from[index][0]);
+                into[index][1] += from[index][1];
+            }
+        }
+
         static void addToBag(array<array<double, 2>, 256> &bagCounts, const float f, const int bias) {
             quarter q = floatToQuarter(f, bias);
-            // gravitate to numbers that are furthest from zero, unless zero (this may not be needed
-            // since it should initialize to zero.)
-            // is branching too expensive here? maybe we always assign, accepting slightly worse
-            // results for better performance?
-            const auto old_val = bagCounts[q][0];
-            if ((f > 0 && f > old_val) || (f < 0 && f < old_val) || (f == 0)) {
-                bagCounts[q][0] = f;
-            }
+            keepFurthestFromZero(bagCounts[q][0], f);
             bagCounts[q][1] += 1.0;
         }
 
@@ -306,51 +316,11 @@ namespace happyml {
                 populateBags(source, row, col, channel, local);
             }
             const lock_guard<mutex> lock(bagCounts->bagMutex);
-            size_t index = 0;
-            for (const auto &[val, count]: local->bagCounts14) {
-                const double original = bagCounts->bagCounts14[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts14[index][0] = val;
-                }
-                bagCounts->bagCounts14[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCounts8) {
-                const double original = bagCounts->bagCounts8[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts8[index][0] = val;
-                }
-                bagCounts->bagCounts8[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCounts4) {
-                const double original = bagCounts->bagCounts4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts4[index][0] = val;
-                }
-                bagCounts->bagCounts4[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCounts1) {
-                const double original = bagCounts->bagCounts1[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts1[index][0] = val;
-                }
-                bagCounts->bagCounts1[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCountsNegative4) {
-                const double original = bagCounts->bagCountsNegative4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCountsNegative4[index][0] = val;
-                }
-                bagCounts->bagCountsNegative4[index][1] += count;
-                index++;
-            }
+            mergeBags(bagCounts->bagCounts14, local->bagCounts14);
+            mergeBags(bagCounts->bagCounts8, local->bagCounts8);
+            mergeBags(bagCounts->bagCounts4, local->bagCounts4);
+            mergeBags(bagCounts->bagCounts1, local->bagCounts1);
+            mergeBags(bagCounts->bagCountsNegative4, local->bagCountsNegative4);
         }
 
         static void populateBagsByRow(BaseTensor *source,
@@ -363,51 +333,11 @@ namespace happyml {
                 populateBags(source, row, col, channel, local);
             }
             const lock_guard<mutex> lock(bagCounts->bagMutex);
-            size_t index = 0;
-            for (const auto &[val, count]: local->bagCounts14) {
-                const double original = bagCounts->bagCounts14[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts14[index][0] = val;
-                }
-                bagCounts->bagCounts14[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCounts8) {
-                const double original = bagCounts->bagCounts8[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts8[index][0] = val;
-                }
-                bagCounts->bagCounts8[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCounts4) {
-                const double original = bagCounts->bagCounts4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts4[index][0] = val;
-                }
-                bagCounts->bagCounts4[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCounts1) {
-                const double original = bagCounts->bagCounts1[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCounts1[index][0] = val;
-                }
-                bagCounts->bagCounts1[index][1] += count;
-                index++;
-            }
-            index = 0;
-            for (const auto &[val, count]: local->bagCountsNegative4) {
-                const double original = bagCounts->bagCountsNegative4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
-                    bagCounts->bagCountsNegative4[index][0] = val;
-                }
-                bagCounts->bagCountsNegative4[index][1] += count;
-                index++;
-            }
+            mergeBags(bagCounts->bagCounts14, local->bagCounts14);
+            mergeBags(bagCounts->bagCounts8, local->bagCounts8);
+            mergeBags(bagCounts->bagCounts4, local->bagCounts4);
+            mergeBags(bagCounts->bagCounts1, local->bagCounts1);
+            mergeBags(bagCounts->bagCountsNegative4, local->bagCountsNegative4);
         }
 
         static void wait(queue<future<void>> &futures) {
-- 
2.43.0


From cb7025020669711acf0289429b6a6941b73b042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:31 +0000
Subject: [PATCH 57/70] fix: tensor statistics left out what a thread that
 failed should have counted

---
 src/util/tensor_stats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index a4e5c51..a28e69c 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -342,7 +342,7 @@ namespace happyml {
 
         static void wait(queue<future<void>> &futures) {
             while (!futures.empty()) {
-                futures.front().wait();
+                futures.front().get();
                 futures.pop();
             }
         }
-- 
2.43.0


From 1a0cf6305f0bccd6a74175e5807a5f40d6622569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 58/70] fix: the statistics of a tensor without a finite value
 read a bag that isn't there

---
 src/util/tensor_stats.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index a28e69c..7ad1e91 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -437,6 +437,9 @@ namespace happyml {
         }
 
         void calculateQuarters() {
+            if (elementCount == 0 || bagElements.empty()) {
+                return;
+            }
             const unsigned long quarter_size = elementCount / 4;
 //        cout << "Quarter Size: " << quarter_size << endl;
             unsigned long next_quarter = quarter_size;
-- 
2.43.0


From d9a65c0b41ee1a7a136fea2531efe7c240882303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:02 +0000
Subject: [PATCH 59/70] fix: the search eliminated the better configurations of
 a round

---
 src/ml/hyperband/hyperband.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 571cdb4..1027639 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -74,9 +74,9 @@ namespace happyml {
 
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
-                                  // return true if config1 is worse than config2
-                                  return (config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric) ||
-                                         (!config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric);
+                                  // return true if config1 is better than config2
+                                  return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
+                                         (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
             configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
-- 
2.43.0


From e7ec4a2bcb417d259db9e662c10f64ed7c56f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:02 +0000
Subject: [PATCH 60/70] fix: a search among one configuration evaluated nothing

---
 src/ml/hyperband/hyperband.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 1027639..dc7903d 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -25,7 +25,7 @@ namespace happyml {
                 }
                 std::vector<shared_ptr<Hyperparameters>> configurations = generateInitialConfigurations(num_configurations, bits_per_hyperparameter);
                 std::cout << "Searching for the best configuration among " << num_configurations << " likely options." << endl;
-                for (int round = 0; num_configurations > 1; round++) {
+                for (int round = 0; num_configurations > 1 || (round == 0 && num_configurations == 1); round++) {
                     int allocated_resources = std::max(2, max_resources / static_cast<int>(pow(reduction_factor, round)));
 
                     std::cout << "Round " << (round + 1) << ": ";
-- 
2.43.0


From 82254beb7585da1c4010356662f9e435b6b91177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:02 +0000
Subject: [PATCH 61/70] fix: evaluations ignored their epoch, time and resource
 limits

---
 src/ml/hyperband/configuration_evaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 64880aa..8b85d11 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -224,6 +224,7 @@ namespace happyml {
                                                                   improvement_tolerance,
                                                                   2,
                                                                   0.25f);
+            model->setExitStrategy(exit_strategy);
             model->setSilentMode(true);
             shared_ptr<BinaryDataSet> data_set = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             shared_ptr<BinaryDataSet> test_data_set = make_shared<BinaryDataSet>(test_dataset_path_, test_dataset_split_);
-- 
2.43.0


From 2350f5dfa1c2cbee65e8846c9fd1b93618fce27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 62/70] fix: evaluations within the same millisecond overwrote
 each other's models

---
 src/ml/hyperband/configuration_evaluator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 8b85d11..154f3e3 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -6,6 +6,8 @@
 #ifndef HAPPYML_CONFIGURATION_EVALUATOR_HPP
 #define HAPPYML_CONFIGURATION_EVALUATOR_HPP
 
+#include <atomic>
+#include <random>
 #include <utility>
 
 #include "hyperband_space.hpp"
@@ -31,7 +33,7 @@ namespace happyml {
             auto timestamp = std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count();
 
             std::stringstream ss;
-            ss << std::hex << repo_base_path_ << "cache/" << "temp_" << timestamp;
+            ss << std::hex << repo_base_path_ << "cache/" << "temp_" << timestamp << "_" << std::random_device{}(); // another search may start within the same millisecond
             best_model_repo_ = ss.str();
             shared_ptr<BinaryDataSet> temp = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             expected_decoders_ = build_expected_decoders(false, temp);
@@ -101,6 +103,7 @@ namespace happyml {
         bool minimize_metric_;
         std::string best_model_name_;
         std::string best_model_repo_;
+        std::atomic<size_t> next_model_{0};
         std::vector<pair<shared_ptr<Hyperparameters>, float>> results_;
         std::string repo_base_path_;
         int max_epochs_;
@@ -109,7 +112,7 @@ namespace happyml {
         shared_ptr<NeuralNetworkForTraining> buildModel(const shared_ptr<Hyperparameters> &configuration) {
             auto neural_network_builder = neuralNetworkBuilder(optimizer_type_);
             auto dsl = neural_network_builder
-                    ->setModelName(configuration->temp_folder_name())
+                    ->setModelName(configuration->temp_folder_name() + "_" + asString(next_model_++)) // the same configuration may be evaluated again within a millisecond
                     ->setModelRepo(best_model_repo_)
                     ->setLearningRate(configuration->learning_rate)
                     ->setBiasLearningRate(configuration->bias_learning_rate)
-- 
2.43.0


From 9f33e39a90ef749e9bbbe44b41a126481119f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 63/70] fix: a search could return a network whose training had
 diverged, and ordered such configurations inconsistently

---
 src/ml/hyperband/configuration_evaluator.hpp | 1 +
 src/ml/hyperband/hyperband.hpp               | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 154f3e3..d084af5 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -255,6 +255,7 @@ namespace happyml {
             configuration->evaluation_metric = evaluationMetric;
             configuration->minimize_metric = minimize_metric_;
             if (best_configuration_ == nullptr ||
+                (std::isnan(best_evaluation_metric_) && !std::isnan(evaluationMetric)) || // training diverged
                 (minimize_metric_ && evaluationMetric < best_evaluation_metric_) ||
                 (!minimize_metric_ && evaluationMetric > best_evaluation_metric_)) {
                 best_configuration_ = configuration;
diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index dc7903d..2931965 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -75,6 +75,9 @@ namespace happyml {
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
                                   // return true if config1 is better than config2
+                                  if (std::isnan(config1->evaluation_metric) || std::isnan(config2->evaluation_metric)) {
+                                      return !std::isnan(config1->evaluation_metric);
+                                  }
                                   return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
                                          (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
-- 
2.43.0


From fb06c8fc06fcb940be281b576be7e699df45c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:38 +0000
Subject: [PATCH 64/70] fix: an evaluation that failed ended the process

---
 src/ml/hyperband/hyperband.hpp | 40 ++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 2931965..7161dc7 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -29,12 +29,18 @@ namespace happyml {
                     int allocated_resources = std::max(2, max_resources / static_cast<int>(pow(reduction_factor, round)));
 
                     std::cout << "Round " << (round + 1) << ": ";
+                    std::vector<std::exception_ptr> failures(configurations.size()); // an exception must not leave a parallel algorithm
                     std::for_each(std::execution::par, configurations.begin(), configurations.end(), [&](shared_ptr<Hyperparameters> &configuration) {
                         cout << "{";
-                        configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        try {
+                            configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        } catch (...) {
+                            failures[&configuration - configurations.data()] = std::current_exception();
+                        }
                         cout << "}";
                     });
                     cout << endl;
+                    removeFailedConfigurations(configurations, failures);
                     float best_evaluation_metric = configuration_evaluator_->getBestEvaluationMetric();
                     cout << "Best evaluation metric: " << best_evaluation_metric << endl;
                     if ((configuration_evaluator_->getMinimizeMetric() && best_evaluation_metric < target_metric) || (!configuration_evaluator_->getMinimizeMetric() && best_evaluation_metric > target_metric)) {
@@ -42,10 +48,8 @@ namespace happyml {
                         break;
                     }
 
+                    num_configurations = std::min(num_configurations / reduction_factor, configurations.size());
                     eliminateConfigurations(configurations, num_configurations);
-
-                    num_configurations /= reduction_factor;
-                    configurations.resize(num_configurations);
                 }
                 auto best_model = configuration_evaluator_->getBestModel();
                 configuration_evaluator_->remove_temp_folder();
@@ -70,9 +74,31 @@ namespace happyml {
             return configurations;
         }
 
-        void eliminateConfigurations(std::vector<shared_ptr<Hyperparameters>> &configurations, size_t &num_configurations) const {
+        // Configurations that could not be evaluated are skipped, unless there is nothing else to go on with.
+        void removeFailedConfigurations(std::vector<shared_ptr<Hyperparameters>> &configurations, const std::vector<std::exception_ptr> &failures) const {
+            std::vector<shared_ptr<Hyperparameters>> evaluated;
+            std::exception_ptr failure = nullptr;
+            for (size_t i = 0; i < configurations.size(); i++) {
+                if (failures[i] == nullptr) {
+                    evaluated.push_back(configurations[i]);
+                } else {
+                    failure = failures[i];
+                    try {
+                        std::rethrow_exception(failure);
+                    } catch (const std::exception &e) {
+                        cout << "Skipping a configuration that could not be evaluated: " << e.what() << endl;
+                    }
+                }
+            }
+            if (evaluated.empty() && failure != nullptr && configuration_evaluator_->getBestConfiguration() == nullptr) {
+                std::rethrow_exception(failure);
+            }
+            configurations = evaluated;
+        }
+
+        void eliminateConfigurations(std::vector<shared_ptr<Hyperparameters>> &configurations, size_t num_configurations) const {
 
-            std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
+            std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations), configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
                                   // return true if config1 is better than config2
                                   if (std::isnan(config1->evaluation_metric) || std::isnan(config2->evaluation_metric)) {
@@ -82,7 +108,7 @@ namespace happyml {
                                          (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
-            configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
+            configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations), configurations.end());
         }
 
         shared_ptr<HyperparameterSpace> hyperparameter_space_;
-- 
2.43.0


From 7742b2ab538086b62c007bd80293ca965c92b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:35 +0000
Subject: [PATCH 65/70] fix: convert_txt_to_csv repeated the last word of a
 cell ended by a sentence, wrote an empty cell before a long word and took a
 failed read for the end of the text

---
 src/util/dataset_utils.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index da5ceca..9d6ea41 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -101,20 +101,24 @@ namespace happyml {
         std::string cell;
 
         int near_limit = character_limit * 4 / 5;
-        bool write_cell;
         while (std::getline(input_file, token, ' ')) {
             if (cell.length() + token.length() + 1 <= character_limit) {
                 cell += " " + token;
                 auto token_len = token.length();
-                write_cell = (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.'));
+                if (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.')) {
+                    delimitedTextFileWriter.writeRecord({cell});
+                    cell.clear(); // the token is part of the cell that was just written
+                }
             } else {
-                write_cell = true;
-            }
-            if (write_cell) {
-                delimitedTextFileWriter.writeRecord({cell});
+                if (!cell.empty()) {
+                    delimitedTextFileWriter.writeRecord({cell});
+                }
                 cell = token;
             }
         }
+        if (input_file.bad()) {
+            return false;
+        }
 
         if (!cell.empty()) {
             delimitedTextFileWriter.writeRecord({cell});
-- 
2.43.0


From 86f09c42391e054dc067ef9749b77fe8c222cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:35 +0000
Subject: [PATCH 66/70] fix: loading delimited values took an unreadable file
 for an empty one and read past the end of short records

---
 src/util/dataset_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 9d6ea41..0b3ff0c 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -486,9 +486,15 @@ namespace happyml {
         auto dataset = make_shared<InMemoryTrainingDataSet>();
 
         DelimitedTextFileReader delimitedTextFileReader(path, delimiter, header_row);
+        if (!delimitedTextFileReader.is_open()) {
+            throw runtime_error("Could not read file " + path);
+        }
 
         while (delimitedTextFileReader.hasNext()) {
             auto record = delimitedTextFileReader.nextRecord();
+            if (record.size() < expected_columns + given_columns) {
+                throw runtime_error("Record length is less than expected.  Expected: " + to_string(expected_columns + given_columns) + " Actual: " + to_string(record.size()));
+            }
             auto middleIter(record.begin());
             std::advance(middleIter, expected_first ? expected_columns : given_columns);
             vector<string> firstHalf(record.begin(), middleIter);
-- 
2.43.0


From 4d50b47bfcb6ce6503070d335b241d5725152639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 67/70] fix: a text file without lines was reported as not open

---
 src/util/file_reader.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index a39acc7..59b48cb 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -40,6 +40,7 @@ namespace happyml {
             } else {
                 stream.open(filenames[current_file]);
                 has_next = stream.is_open();
+                opened = has_next;
                 if (has_next) {
                     if (skip_header) {
                         skipHeader();
@@ -54,6 +55,7 @@ namespace happyml {
         }
 
         void close() {
+            opened = false;
             if (stream.is_open()) {
                 stream.close();
             }
@@ -93,8 +95,9 @@ namespace happyml {
             return result;
         }
 
+        // a file without lines is open, too, although all of it has been read.
         bool is_open() {
-            return stream.is_open();
+            return opened;
         }
 
     private:
@@ -116,6 +119,7 @@ namespace happyml {
         vector<string> filenames;
         size_t current_file;
         ifstream stream;
+        bool opened = false;
         bool has_next;
         string next_line;
         bool skip_header;
-- 
2.43.0


From 9182d3caf456534ad1e62883209253d22081c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:30 +0000
Subject: [PATCH 68/70] fix: a convolution whose knowledge could not be loaded
 was left without weights and crashed later

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index c930263..e93f7e7 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -45,13 +45,14 @@ namespace happyml {
         }
 
         void loadKnowledge(const string &fullKnowledgePath) override {
-            this->weights = {};
+            vector<shared_ptr<BaseTensor>> loaded_weights; // the weights stay usable if loading fails
             auto filters = outputShape[2];
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
                 string path = fullKnowledgePath + "/" + label + "_" + asString(next_weight_layer) + ".tensor";
                 auto matrix = make_shared<FullTensor>(path);
-                this->weights.push_back(matrix);
+                loaded_weights.push_back(matrix);
             }
+            this->weights = std::move(loaded_weights);
         }
 
         void discardTrainingStep() override {
-- 
2.43.0


From 3f875ac83d7053682c11e3b9eccb3234bbe3e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 69/70] fix: create_tokenizer reports a failed training or save
 and keeps the existing tokenizer

---
 src/create_tokenizer.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/create_tokenizer.cpp b/src/create_tokenizer.cpp
index a00405f..caf8de5 100644
--- a/src/create_tokenizer.cpp
+++ b/src/create_tokenizer.cpp
@@ -46,15 +46,24 @@ int main(int argc, char *argv[]) {
         }
 
         BytePairEncoderModel bpe;
+        bool trained;
         if (filesystem::is_directory(path)) {
-            bpe.train_on_folder(path);
+            trained = bpe.train_on_folder(path);
         } else if (filesystem::is_regular_file(path)) {
-            bpe.train_on_file(path);
+            trained = bpe.train_on_file(path);
         } else {
             cout << "USAGE: creat_tokenizer path" << endl;
             return 1;
         }
-        bpe.save("../happyml_repo", "default_token_encoder", true);
+        if (!trained) {
+            // don't replace an existing tokenizer
+            cout << "Failed to train on: " << path << endl;
+            return 1;
+        }
+        if (!bpe.save("../happyml_repo", "default_token_encoder", true)) {
+            cout << "Failed to save the tokenizer." << endl;
+            return 1;
+        }
     } catch (const exception &e) {
         cout << e.what() << endl;
         return 1;
-- 
2.43.0


From b6f84f755d8e13e36fada7b3e8ed917a9f1121f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 70/70] fix: columns of a dataset are matched by name with
 those a task was trained with

---
 src/util/file_reader.hpp | 56 ++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 59b48cb..5941b6a 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_FILE_READER_HPP
 
 #include <fstream>
+#include <numeric>
 #include <string>
 #include <utility>
 #include <vector>
@@ -226,7 +227,8 @@ namespace happyml {
                 close();
                 throw runtime_error("Incompatible expected metadata for renormalization");
             }
-
+            given_positions_ = arrangeLike(given_metadata_, renormalize_given_metadata_);
+            expected_positions_ = arrangeLike(expected_metadata_, renormalize_expected_metadata_);
         }
 
         ~BinaryDatasetReader() {
@@ -257,9 +259,9 @@ namespace happyml {
             binaryFile_.clear(); // an earlier failed read does not matter to this one
             binaryFile_.seekg(header_size_ + offset, ios::beg);
 
-            vector<shared_ptr<BaseTensor>> given_tensors;
-            size_t given_offset = 0;
-            for (const auto &metadata: given_metadata_) {
+            vector<shared_ptr<BaseTensor>> given_tensors(given_metadata_.size());
+            for (const size_t given_offset: given_positions_) {
+                const auto &metadata = given_metadata_[given_offset];
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_given_metadata_.empty()) {
                     next_tensor = relabel(next_tensor, metadata, renormalize_given_metadata_[given_offset]);
@@ -270,12 +272,11 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->min_value, renormalize_given_metadata_[given_offset]->max_value,
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
-                given_tensors.push_back(next_tensor);
-                given_offset++;
+                given_tensors[given_offset] = next_tensor;
             }
-            vector<shared_ptr<BaseTensor>> expected_tensors;
-            size_t expected_offset = 0;
-            for (const auto &metadata: expected_metadata_) {
+            vector<shared_ptr<BaseTensor>> expected_tensors(expected_metadata_.size());
+            for (const size_t expected_offset: expected_positions_) {
+                const auto &metadata = expected_metadata_[expected_offset];
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = relabel(next_tensor, metadata, renormalize_expected_metadata_[expected_offset]);
@@ -286,8 +287,7 @@ namespace happyml {
                                                             renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
                                                             renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
-                expected_tensors.push_back(next_tensor);
-                expected_offset++;
+                expected_tensors[expected_offset] = next_tensor;
             }
             return {given_tensors, expected_tensors};
         }
@@ -428,6 +428,40 @@ namespace happyml {
         string path_;
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_given_metadata_;
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_expected_metadata_;
+        // where each column of the file, in the order of the file, is found in a row
+        std::vector<size_t> given_positions_;
+        std::vector<size_t> expected_positions_;
+
+        // Columns go by their names: brings those of the file into the order of the wanted ones.
+        static vector<size_t> arrangeLike(vector<shared_ptr<BinaryColumnMetadata>> &columns,
+                                          const vector<shared_ptr<BinaryColumnMetadata>> &wanted) {
+            vector<size_t> positions(columns.size());
+            if (wanted.empty()) {
+                std::iota(positions.begin(), positions.end(), 0);
+                return positions;
+            }
+            vector<shared_ptr<BinaryColumnMetadata>> arranged;
+            vector<bool> used(columns.size(), false);
+            for (const auto &next: wanted) {
+                size_t column = 0;
+                while (column < columns.size() && (used[column] || columns[column]->name != next->name)) {
+                    column++;
+                }
+                if (column == columns.size()) {
+                    throw runtime_error("There is no column named " + next->name);
+                }
+                const auto &found = columns[column];
+                if (found->purpose != next->purpose || found->rows != next->rows || found->channels != next->channels ||
+                    (found->purpose != 'L' && found->columns != next->columns)) {
+                    throw runtime_error("Values of another kind or shape are in column " + next->name);
+                }
+                used[column] = true;
+                positions[column] = arranged.size();
+                arranged.push_back(found);
+            }
+            columns = arranged;
+            return positions;
+        }
 
         // which column of a one-hot encoded label stands for which label differs from dataset to dataset
         static shared_ptr<BaseTensor> relabel(const shared_ptr<BaseTensor> &tensor,
-- 
2.43.0

