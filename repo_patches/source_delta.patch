From 7e41745921d7c59a9197ef5b37397fd4b8135452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 01/23] fix: release Matrix storage with delete[] (it is
 allocated with new[])

---
 src/libcatnip/matrix.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..eafd277 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -416,7 +416,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -488,7 +488,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -503,7 +503,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -545,7 +545,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -560,7 +560,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -585,7 +585,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -600,7 +600,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
-- 
2.43.0


From bae33078a806d73b59ca72f145c5b6725a8a7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 02/23] fix: Matrix(vector<vector<double>>) allocated its
 storage twice

---
 src/libcatnip/matrix.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index eafd277..2ea5070 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -279,7 +279,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
-- 
2.43.0


From 8e099b2d5f14c29095538141f6888d2d991c334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/23] fix: give Matrix deep copies (copies shared storage,
 assignment dropped shelves)

---
 src/libcatnip/matrix.cpp | 27 ++++++++++++++++++++++-----
 src/libcatnip/matrix.hpp |  3 +++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2ea5070..c2b9664 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -362,6 +362,18 @@ Matrix::Matrix(const int r, const int c, const int s) {
   }
 }
 
+Matrix::Matrix(const Matrix &m) {
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = new double[rows * cols * shel];
+  for (int i = 0; i < rows * cols * shel; i++) {
+    elem[i] = m.elem[i];
+  }
+}
+
+Matrix::~Matrix() { delete[] elem; }
+
 int Matrix::resize(int r, int c) {
 
   if (r < 1) {
@@ -425,13 +437,18 @@ int Matrix::resize(int r, int c) {
 }
 
 Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
+  if (this == &m) return *this;
 
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
-    }
+  double *temp = new double[m.rows * m.cols * m.shel];
+  for (int i = 0; i < m.rows * m.cols * m.shel; i++) {
+    temp[i] = m.elem[i];
   }
+
+  delete[] elem;
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = temp;
   return *this;
 }
 
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..693a43c 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -22,6 +22,9 @@ class Matrix {
   explicit Matrix(const int r);
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
+  // Copies own their storage
+  Matrix(const Matrix &m);
+  ~Matrix();
 
   Matrix &operator=(const Matrix &m);
   // manipulators
-- 
2.43.0


From 09900911089359e17351434e3aaf1a634b1d05b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 04/23] fix: set_rows/set_cols/set_shel keep the retained
 elements and stay inside the new storage

---
 src/libcatnip/matrix.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index c2b9664..ab630dd 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -496,7 +496,7 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
+          if (i <= rows) {
             temp[index(i, j, k)] = elem[index(i, j, k)];
           } else {
             temp[index(i, j, k)] = 0;
@@ -553,10 +553,10 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (j <= cols) {
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = 0;
           }
         }
       }
@@ -572,7 +572,7 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
         }
       }
     }
@@ -593,10 +593,10 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (k <= shel) {
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = 0;
           }
         }
       }
@@ -612,7 +612,7 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From 9cadcc309ce55d9aea388375f464720af4283457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 05/23] fix: Matrix row/col/element accessors no longer touch
 memory outside the storage

---
 src/libcatnip/matrix.cpp | 45 ++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index ab630dd..d195ec3 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -305,7 +305,7 @@ Matrix::Matrix(const int r) {
   if (r == 0) {
     rows = 0;
     cols = 0;
-    shel = 0;
+    shel = 1;
     elem = nullptr;
   } else {
     rows = r;
@@ -458,30 +458,30 @@ int Matrix::index(const int r, const int c, const int s) const {
 
 void Matrix::set_row(vector<double> row, int r) {
 
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is not within the matrix");
+  }
+
   if (get_cols() != static_cast<int>(row.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
 
   for (int j = 1; j <= get_cols(); j++) {
-    if (r <= rows) {
-      elem[index(r, j, 1)] = row.at(j - 1);
-    } else {
-      elem[index(r, j, 1)] = 0;
-    }
+    elem[index(r, j, 1)] = row.at(j - 1);
   }
 }
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (c < 1 || c > cols) {
+    throw invalid_argument("col is not within the matrix");
+  }
+
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
-    if (c <= cols) {
-      elem[index(i, c, 1)] = col.at(i - 1);
-    } else {
-      elem[index(i, c, 1)] = 0;
-    }
+    elem[index(i, c, 1)] = col.at(i - 1);
   }
 }
 
@@ -526,6 +526,9 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  if (c < 1 || c > cols) {
+    throw invalid_argument("col is not within the matrix");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -534,6 +537,9 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is not within the matrix");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
@@ -583,8 +589,8 @@ void Matrix::set_cols(int c) {
 }
 
 void Matrix::set_shel(int s) {
-  if (s < 0) {
-    printf("ERROR negative number submitted to set_shel\n");
+  if (s < 1) {
+    printf("ERROR must set shelves to a value of 1 or greater\n");
     exit(1);
   }
   if (s > shel) {
@@ -622,7 +628,7 @@ void Matrix::set_shel(int s) {
   }
 }
 
-void Matrix::set_elem(double val) { elem[0] = val; }
+void Matrix::set_elem(double val) { set_elem(val, 1, 1, 1); }
 
 void Matrix::set_elem(double val, int r) {
   if (r > rows) {
@@ -636,7 +642,7 @@ void Matrix::set_elem(double val, int r) {
     exit(1);
   };
 
-  elem[index(r, 1, 1)] = val;
+  set_elem(val, r, 1);
 }
 
 void Matrix::set_elem(double val, int r, int c) {
@@ -712,7 +718,7 @@ int Matrix::get_shel() const { return shel; }
 
 int Matrix::total_elem() { return rows * cols * shel; }
 
-double Matrix::get_elem() const { return elem[0]; }
+double Matrix::get_elem() const { return get_elem(1, 1, 1); }
 
 double Matrix::get_elem(const int r) const {
   if (r < 1) {
@@ -724,7 +730,7 @@ double Matrix::get_elem(const int r) const {
         "Matrix\n");
     exit(1);
   }
-  return elem[index(r, 1, 1)];
+  return get_elem(r, 1);
 }
 
 double Matrix::get_elem(const int r, const int c) const {
@@ -749,6 +755,9 @@ double Matrix::get_elem(const int r, const int c) const {
 }
 
 double *Matrix::get_elem_ptr(const int r, const int c) const {
+  if (r < 1 || r > rows || c < 1 || c > cols) {
+    throw invalid_argument("element is not within the matrix");
+  }
   return &elem[index(r, c, 1)];
 }
 
-- 
2.43.0


From 04770c2c6d5ded1ef2bdbeafdf2f345c18ab6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 06/23] fix: Matrix::getCol sized the column by the number of
 columns

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index d195ec3..2e311e7 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -959,7 +959,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From 5a26125ad4a2b3dbc6faf24b13491298d60dceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 07/23] fix: printing a Matrix repeated the first shelf for
 every shelf

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2e311e7..f338f7a 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -193,7 +193,7 @@ std::ostream &operator<<(std::ostream &out, Matrix &mat) {
     for (i = 1; i <= mat.get_rows(); i++) {
       out << "Row " << i << "\t";
       for (j = 1; j <= mat.get_cols(); j++) {
-        out << mat.get_elem(i, j) << "\t";
+        out << mat.get_elem(i, j, k) << "\t";
       }
       out << "\n";
     }
-- 
2.43.0


From 3e633700b5509620323967eb5021cad0c76ff612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 08/23] fix: double arguments: register against the double
 table and make their options queryable

---
 src/libcatnip/io/argumentparser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..3e7b56f 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
@@ -551,6 +551,13 @@ string ArgumentParser::getFlagArgOptValue(string flag, string argname,
       return argInt->getPropertyValues(property, option);
     }
   }
+  if (double_arg_.count(flag) != 0) {
+    auto argDouble = double_arg_[flag];
+    auto argName = argDouble->getArgumentName();
+    if (argName.compare(argname) == 0) {
+      return argDouble->getPropertyValues(property, option);
+    }
+  }
 
   throw invalid_argument("Unrecognized flag or argument " + flag + " " +
                          argname);
-- 
2.43.0


From 841fd3bd8d08b402b49f80f900244b8e25c64824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 09/23] fix: switches consume their explicit value and report
 it consistently

---
 src/libcatnip/io/argumentparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 3e7b56f..c84a09b 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -454,6 +454,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
           throw runtime_error(err);
         } else {
           unrecognized = false;
+          string_values_[flag] = "ON";
           int_values_[flag] = 1;
         }
       } else {
@@ -466,9 +467,11 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
+      string_values_[flag] = "ON";
       int_values_[flag] = 1;
     }
   }
-- 
2.43.0


From 3f2e9b6594c40d0442af67e5480443af75b40440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 10/23] fix: -v, the registered short form of --version, was
 not recognised

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index c84a09b..0cf0c24 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -660,7 +660,7 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string citation_flag = "--citation";
   string citation_flag_short = "-cite";
   string version_flag = "--version";
-  string version_flag_short = "-version";
+  string version_flag_short = "-v";
 
   size_t allowed_args_before_exit = 2;
   for (size_t index = 1; index < arguments.size(); ++index) {
-- 
2.43.0


From 054853d177bc83ff15e71d79506f831f1ce41d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 11/23] fix: property option checks were bypassed when options
 are set through an argument

---
 src/libcatnip/io/arguments/properties/propertyfileext.cpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyfileext.hpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyobject.hpp       | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.cpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.hpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.hpp | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.cpp b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
index 670a889..473e86a 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
@@ -66,7 +66,7 @@ void PropertyFileExt::checkExt(const string& ext) const {
 }
 
 void PropertyFileExt::setPropOption(std::string option,
-                                    std::set<std::string> vars) {
+                                    const std::set<std::string> &vars) {
   PropertyObject::setPropOption(option, vars);
 }
 
diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.hpp b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
index 7cf4b41..3c1d419 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
@@ -21,7 +21,7 @@ class PropertyFileExt
   PropertyFileExt(std::set<std::string> exts);
   bool propValid(const std::string &fileNamePath);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string> &vars);
 };
 
 }  // namespace catnip
diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..4759b54 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -61,7 +61,7 @@ class PropertyObject {
   std::vector<std::string> getPropertyOptions(void) const { return getOpts_(); }
 
   // Setup the valid options associated with the parameter
-  void setPropOption(std::string option, const T & val) {
+  virtual void setPropOption(std::string option, const T & val) {
     if (!propOptionValid_(option)) {
       throw std::invalid_argument("Property option is unrecognized " + option);
     }
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
index c1df59f..f045418 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
@@ -78,7 +78,7 @@ void PropertySisterFile::setPropOption(std::string option,
 }
 
 void PropertySisterFile::setPropOption(std::string option,
-                                       vector<string> vec_vars) {
+                                       const vector<string> &vec_vars) {
 
   if (option.compare("ALLOWED_SISTER_FILE_EXT") == 0) {
     vector<string> fileNames;
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
index b7fdaec..233b8ed 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
@@ -19,7 +19,7 @@ class PropertySisterFile
  public:
   PropertySisterFile(void);
   void setPropOption(std::string option, const std::string &var);
-  void setPropOption(std::string option, std::vector<std::string> var);
+  void setPropOption(std::string option, const std::vector<std::string> &vec_vars);
   bool propValid(const std::string &fileNamePath);
 };
 
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..8a604f2 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -44,7 +44,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
 }
 
 void PropertyStringChoice::setPropOption(std::string option,
-                                         set<string> set_vars) {
+                                         const set<string> &set_vars) {
 
   if (option.compare("STRING_CHOICES") == 0) {
     setPropOption_(option, set_vars);
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
index 580d816..7c0cdcb 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
@@ -16,7 +16,7 @@ class PropertyStringChoice
  public:
   PropertyStringChoice(void);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string> &set_vars);
   bool propValid(const std::string& string_choice);
 };
 
-- 
2.43.0


From 18bede6538c06862ffda9cd94cba5074cbb6e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 12/23] fix: string choice options: a single choice was stored
 and then rejected, an empty enforcement value was dereferenced

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index 8a604f2..8111525 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
@@ -50,7 +51,7 @@ void PropertyStringChoice::setPropOption(std::string option,
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
-- 
2.43.0


From 52191f9557cfeeed923be9a38a4bdf7e58fc911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 13/23] fix: FILE_DOES_EXIST was missing after
 PropertyFileExist(int) and kept a previous file's answer

---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..2629e7e 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -27,6 +28,7 @@ bool PropertyFileExist::fileExist(const string& fileNamePath) const {
 }
 
 bool PropertyFileExist::propValid(const string& fileNamePath) {
+  setPropOption_("FILE_DOES_EXIST", 0);
   if (getPropOption("FILE_MUST_EXIST")) {
     if (!fileExist(fileNamePath)) {
       string err = "" + fileNamePath + " does not exist";
-- 
2.43.0


From 5151e30872bdcb9ca216fd389dc0f3ec6383d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 14/23] fix: lastN threw and cut_end kept everything for
 strings shorter than n

---
 src/libcatnip/string_support.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 1c082e2..1aee448 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -81,9 +81,13 @@ string getPath(string input) {
   return val;
 }
 
-string lastN(string input, int n) { return input.substr(input.size() - n); }
+string lastN(string input, int n) {
+  if (n >= static_cast<int>(input.size())) return input;
+  return input.substr(input.size() - n);
+}
 
 string cut_end(string input, int n) {
+  if (n >= static_cast<int>(input.size())) return "";
   return input.substr(0, input.size() - n);
 }
 
-- 
2.43.0


From 13e09580304ea93b79d12e9d4bee7d6c6d78f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 15/23] fix: .orb and .7 coefficient files were accepted on the
 command line and then rejected

---
 src/libcatnip/io/file_readers/punreader.cpp |  6 ++++--
 src/libcatnip/parameters.cpp                | 15 +++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..8dd69e7 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -39,8 +39,10 @@ Matrix *PunReader::getCoefsMatrix(const string &orb_type) {
 
 void PunReader::validFileName_() {
   string ext = fileExt_();
-  if (ext.compare(".pun") != 0) {
-    throw invalid_argument("A pun file must have the .pun extension");
+  if (ext.compare(".pun") != 0 && ext.compare(".orb") != 0 &&
+      ext.compare(".7") != 0) {
+    throw invalid_argument(
+        "A pun file must have the .pun, .orb or .7 extension");
   }
 }
 
diff --git a/src/libcatnip/parameters.cpp b/src/libcatnip/parameters.cpp
index c43617b..5334004 100644
--- a/src/libcatnip/parameters.cpp
+++ b/src/libcatnip/parameters.cpp
@@ -7,6 +7,12 @@
 using namespace catnip;
 using namespace std;
 
+static bool validPunExt(const string& name) {
+  string ext = grabStrAfterLastOccuranceInclusive(lastStringInPath(name), ".");
+  return ext.compare(".pun") == 0 || ext.compare(".orb") == 0 ||
+         ext.compare(".7") == 0;
+}
+
 void Parameters::setLog1(const string& log1) {
   string ext = lastN(log1, 4);
   if (ext.compare(".log"))
@@ -26,20 +32,17 @@ void Parameters::setLogP(const string& logP) {
   logP_ = logP;
 }
 void Parameters::setPun1(const string& pun1) {
-  string ext = lastN(pun1, 4);
-  if (ext.compare(".pun"))
+  if (!validPunExt(pun1))
     throw invalid_argument("pun file has wrong extension");
   pun1_ = pun1;
 }
 void Parameters::setPun2(const string& pun2) {
-  string ext = lastN(pun2, 4);
-  if (ext.compare(".pun"))
+  if (!validPunExt(pun2))
     throw invalid_argument("pun file has wrong extension");
   pun2_ = pun2;
 }
 void Parameters::setPunP(const string& punP) {
-  string ext = lastN(punP, 4);
-  if (ext.compare(".pun"))
+  if (!validPunExt(punP))
     throw invalid_argument("pun file has wrong extension");
   punP_ = punP;
 }
-- 
2.43.0


From be5b759c4bfdc6949520a235703edcd0ae48cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 16/23] fix: file readers took everything after the first dot
 of a file name as its extension

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..73a1747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -64,7 +64,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.rfind(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From c06ec80ba90a4a317e5c96d530764bd8ff08fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 17/23] fix: Parameters left citation uninitialised

---
 src/libcatnip/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/parameters.hpp b/src/libcatnip/parameters.hpp
index 1664717..9f7c7f3 100644
--- a/src/libcatnip/parameters.hpp
+++ b/src/libcatnip/parameters.hpp
@@ -47,6 +47,7 @@ class Parameters {
         orb_numP(0),
         orb_num1(0),
         orb_num2(0),
+        citation(false),
         counterPoise(false){};
 
   std::string getLog1() const { return log1_; }
-- 
2.43.0


From 046cd9548170eef663be6128188ea9b9eae23e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 18/23] fix: a log file without an overlap section yielded an
 uninitialised matrix pointer

---
 src/libcatnip/io/file_readers/logreader.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 46cde5d..624053a 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -2,6 +2,7 @@
 #ifndef _CATNIP_LOGREADER_HPP_
 #define _CATNIP_LOGREADER_HPP_
 
+#include <stdexcept>
 #include <vector>
 
 #include "../../matrix.hpp"
@@ -18,7 +19,12 @@ class LogReader : public FileReader {
  public:
   explicit LogReader(const std::string &str);
   orb_cont getOrbitalInfo() const { return orb_; }
-  Matrix *getOverlapMatrix() const { return S_; }
+  Matrix *getOverlapMatrix() const {
+    if (S_ == nullptr) {
+      throw std::runtime_error("Overlap matrix was not found in the log file");
+    }
+    return S_;
+  }
   std::vector<double> getOE(const std::string &orb_type) const {
     return OREnergies.at(orb_type);
   }
@@ -48,7 +54,7 @@ class LogReader : public FileReader {
   std::map<std::string, int> homoLevel;
   orb_cont orb_;
   // Overlap matrix
-  Matrix *S_;
+  Matrix *S_ = nullptr;
   std::map<std::string, std::vector<double>> OREnergies;
 
   std::vector<std::vector<double>> xyz;
-- 
2.43.0


From 5831a71692571b800e631c2bcfe57b46215a11da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 19/23] fix: truncated log/pun sections looped forever or
 reused stale data

---
 src/libcatnip/io/file_readers/logreader.cpp | 30 +++++++++++++--------
 src/libcatnip/io/file_readers/punreader.cpp |  9 ++++++-
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..64785f6 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 #include "../../log.hpp"
@@ -64,6 +65,13 @@ vector<string> splitStEnergies(const string & line){
   return items2;
 }
 
+// Read the next line of a section, a section that stops short is an error
+static void nextLine(istream &in, string &line) {
+  if (!getline(in, line)) {
+    throw runtime_error("Unexpected end of file while reading a section");
+  }
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -109,8 +117,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  nextLine(LR_ptr->fid_, line);
+  nextLine(LR_ptr->fid_, line);
   bool sectionEnd = false;
   while (sectionEnd == false) {
     istringstream iss(line);
@@ -130,7 +138,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    nextLine(LR_ptr->fid_, line);
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -150,7 +158,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      nextLine(LR_ptr->fid_, line);
 
       istringstream iss3(line);
       iss3 >> elemType2;
@@ -185,13 +193,13 @@ void LogReader::OverlapSectionReader(void *ptr) {
   bool endFirstSection = false;
   // Skip first line simply has column numbers
   string line;
-  getline(LR_ptr->fid_, line);
+  nextLine(LR_ptr->fid_, line);
   string countC;
 
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
-    getline(LR_ptr->fid_, line);
+    nextLine(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
     int countCint = stoi(countC);
@@ -239,7 +247,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      nextLine(LR_ptr->fid_, line);
       istringstream iss(line);
       string dummy;
       iss >> dummy;
@@ -333,9 +341,9 @@ void LogReader::CoordSectionReader(void *ptr) {
       "----------------------------------";
   string line;
   // Skip the 2nd and third line
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  nextLine(LR_ptr->fid_, line);
+  nextLine(LR_ptr->fid_, line);
+  nextLine(LR_ptr->fid_, line);
 
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
@@ -343,7 +351,7 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    nextLine(LR_ptr->fid_, line);
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 8dd69e7..8e2fb74 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 #include "../../log.hpp"
@@ -86,7 +87,13 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
-      getline(fid_, line);
+      if (!getline(fid_, line)) {
+        line.clear();
+        break;
+      }
+    }
+    if (row.empty() || (first_row_set && row.size() < count)) {
+      throw runtime_error("Unexpected end of a molecular orbital in pun file");
     }
     first_row_set = true;
     count = row.size();
-- 
2.43.0


From f94228f8a9665ffc030c327bd55a6a936e1a15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 20/23] fix: a Beta coefficient section directly after the
 Alpha one was never read

---
 src/libcatnip/io/file_readers/punreader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 8e2fb74..7f94a94 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -74,8 +74,8 @@ void PunReader::ReadCoef(const string &orb_type) {
   bool first_row_set = false;
 
   bool allCoefsRead = false;
+  string line;
   while (!allCoefsRead) {
-    string line;
     getline(fid_, line);
     vector<double> row;
     size_t current_count = 0;
@@ -87,6 +87,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
+      pos_ = fid_.tellg();
       if (!getline(fid_, line)) {
         line.clear();
         break;
@@ -101,6 +102,8 @@ void PunReader::ReadCoef(const string &orb_type) {
 
     allCoefsRead = !(foundSubStrInStr(line, orb_type));
   }
+  // The header of the other spin must be seen by the main read loop
+  if (foundSubStrInStr(line, pattern)) fid_.seekg(pos_);
 
   Matrix *Coefs = new Matrix(v_vec);
   coefs[orb_type] = Coefs;
-- 
2.43.0


From 07522cd8551be767909e35b26d1834fc720ab7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 21/23] fix: refreshSwapOrder never advanced past an entry that
 already was in place

---
 src/libcatnip/qc_functions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..a112b54 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -265,6 +265,7 @@ void refreshSwapOrder(vector<pair<int, int>> &monBmatch,
           [row1was](const pair<int, int> &p) { return row1was == p.second; });
       if (pr_ptr_temp != monBmatch.end()) {
         pr_ptr_temp->second = row1is;
+        ++pr_ptr_temp;
       }
     }
     pr_ptr_temp = monAmatch.begin();
@@ -274,6 +275,7 @@ void refreshSwapOrder(vector<pair<int, int>> &monBmatch,
           [row1was](const pair<int, int> &p) { return row1was == p.second; });
       if (pr_ptr_temp != monAmatch.end()) {
         pr_ptr_temp->second = row1is;
+        ++pr_ptr_temp;
       }
     }
   }
@@ -297,6 +299,7 @@ void refreshSwapOrder(vector<pair<int, int>> &monBmatch,
             [row1was](const pair<int, int> &p) { return row1was == p.second; });
         if (pr_ptr_temp != monAmatch.end()) {
           pr_ptr_temp->second = row1is;
+          ++pr_ptr_temp;
         }
       }
     }
@@ -319,6 +322,7 @@ void refreshSwapOrder(vector<pair<int, int>> &monAmatch) {
           [row1was](const pair<int, int> &p) { return row1was == p.second; });
       if (pr_ptr_temp != monAmatch.end()) {
         pr_ptr_temp->second = row1is;
+        ++pr_ptr_temp;
       }
     }
   }
-- 
2.43.0


From e2acc800d97ce8da3545702a491015cd74c18a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 22/23] fix: unscrambling with unmatched atoms or uncovered
 basis functions read outside its lists

---
 src/libcatnip/qc_functions.cpp | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index a112b54..5abcdde 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <iostream>
 #include <list>
+#include <set>
 #include <sstream>
 #include <stdlib.h>
 #include <string>
@@ -140,6 +141,18 @@ list<Matrix *> splitMatrixIntoList(const vector<int> &subMatrixDimension,
                                    const Matrix *const mat,
                                    const string &ColRowSplit) {
 
+  // The blocks have to cover the matrix exactly, otherwise part of it would
+  // silently get lost
+  int total = 0;
+  for (auto dim : subMatrixDimension) total += dim;
+  int available =
+      ColRowSplit.compare("Rows") == 0 ? mat->get_rows() : mat->get_cols();
+  if (total != available) {
+    throw invalid_argument(
+        "The numbers of basis functions of the atoms do not add up to the size "
+        "of the matrix");
+  }
+
   list<Matrix *> list_matrix;
   int num_sub_matrices = subMatrixDimension.size();
   if (ColRowSplit.compare("Columns") == 0) {
@@ -417,11 +430,29 @@ Matrix *createNewMatrix(list<Matrix *> &p_atom_mat_coef, int rows, int cols,
   return mergeListOfMatrices(p_atom_mat_coef, rows, cols, ColRow);
 }
 
+// Every matched atom has to exist and may only be matched once, -1 means that
+// there was no match
+static void checkMatch(const std::vector<int> &matchDimerA,
+                       const std::vector<int> &matchDimerB, int num_atoms) {
+  set<int> seen;
+  for (auto match : {matchDimerA, matchDimerB}) {
+    for (auto atom : match) {
+      if (atom < 1 || atom > num_atoms || !seen.insert(atom).second) {
+        throw invalid_argument(
+            "The atoms of the monomers cannot be matched with the atoms of the "
+            "dimer");
+      }
+    }
+  }
+}
+
 // unscramble the coefficients
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
                         const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncP, Matrix *dimerCoef) {
 
+  checkMatch(matchDimerA, matchDimerB, basisFuncP.size());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -458,6 +489,8 @@ Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncB, Matrix *Coef) {
 
+  checkMatch(matchDimerB, {}, basisFuncB.size());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -491,6 +524,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &matchDimerB,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatch(matchDimerA, matchDimerB, basisFuncP.size());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
@@ -543,6 +578,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
 Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatch(matchDimerA, {}, basisFuncP.size());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
-- 
2.43.0


From ac95949e075197db294889afb9c6cf49225da34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:29 +0000
Subject: [PATCH 23/23] fix: a log file with five or fewer basis functions
 failed on the text behind its overlap

---
 src/libcatnip/io/file_readers/logreader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 64785f6..ec16b53 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -1,4 +1,5 @@
 
+#include <cctype>
 #include <cmath>
 #include <exception>
 #include <fstream>
@@ -202,8 +203,9 @@ void LogReader::OverlapSectionReader(void *ptr) {
     nextLine(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
-    int countCint = stoi(countC);
-    if (countCint != (countCoef + 1)) {
+    // With five functions or fewer it is not a row of numbers that comes next
+    bool isRow = isdigit(static_cast<unsigned char>(countC[0]));
+    if (!isRow || stoi(countC) != (countCoef + 1)) {
       endFirstSection = true;
     } else {
       ++countCoef;
-- 
2.43.0

