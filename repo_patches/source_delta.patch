From 54a0c58c8c45f4a3db8f7c6de582a9b4558c5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 01/16] fix: addArgument checks every flag of the list for a
 collision

---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..047b5a0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2793,8 +2793,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..0fd6936 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From 59a2349278b6a9b523113d2d086eec0ea08dcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 02/16] fix: removeArguments accepts a name repeated in the
 list

---
 single_include/blet/args.h | 5 ++++-
 src/args.cpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 047b5a0..4408e56 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2827,7 +2827,10 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        // a name may be repeated in the list
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
diff --git a/src/args.cpp b/src/args.cpp
index 0fd6936..e421e2c 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -273,7 +273,10 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        // a name may be repeated in the list
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
-- 
2.43.0


From 6b0f2dc6209b0fad37efabdce4690e16c077c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 03/16] fix: dest keeps the help and version references of the
 argument it replaces

---
 include/blet/args/argument.h | 34 ++++++++++---------------
 single_include/blet/args.h   | 49 ++++++++++++++++++++----------------
 src/argument.cpp             | 15 +++++++++++
 3 files changed, 56 insertions(+), 42 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..3f4a8b4 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -560,11 +560,7 @@ class Argument : public ArgumentElement {
     Argument& dest(std::vector<std::vector<T> >& dest,
                    void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                   const std::vector<std::vector<std::string> >& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -578,11 +574,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                         const std::vector<std::string>& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -595,11 +587,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentType<T>(this, dest, toDest));
     }
 
     /**
@@ -662,6 +650,13 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    /**
+     * @brief Take the place of argument in the registry and delete it
+     *
+     * @param argument
+     */
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -692,8 +687,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentType() {}
 
@@ -727,8 +721,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorType() {}
 
@@ -799,8 +792,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorVectorType() {}
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 4408e56..b85f670 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1111,11 +1111,7 @@ class Argument : public ArgumentElement {
     inline Argument& dest(std::vector<std::vector<T> >& dest,
                           void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                          const std::vector<std::vector<std::string> >& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -1129,11 +1125,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     inline Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                                const std::vector<std::string>& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -1146,11 +1138,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     inline Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentType<T>(this, dest, toDest));
     }
 
     /**
@@ -1213,6 +1201,13 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    /**
+     * @brief Take the place of argument in the registry and delete it
+     *
+     * @param argument
+     */
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -1243,8 +1238,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentType() {}
 
@@ -1278,8 +1272,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorType() {}
 
@@ -1350,8 +1343,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorVectorType() {}
 
@@ -3807,6 +3799,21 @@ inline void Argument::clear_() {
     }
 }
 
+inline void Argument::replace_(Argument* argument) {
+    // take the ownership of validator
+    validDeletable_ = argument->validDeletable_;
+    argument->validDeletable_ = false;
+    // follow the help and version references
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    *this_ = this;
+    delete argument;
+}
+
 } // namespace args
 
 } // namespace blet
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..ed0e880 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -585,6 +585,21 @@ void Argument::clear_() {
     }
 }
 
+void Argument::replace_(Argument* argument) {
+    // take the ownership of validator
+    validDeletable_ = argument->validDeletable_;
+    argument->validDeletable_ = false;
+    // follow the help and version references
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    *this_ = this;
+    delete argument;
+}
+
 } // namespace args
 
 } // namespace blet
-- 
2.43.0


From 952045a5d8a1336687aa896389356069c68c87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 04/16] fix: a copy of Argument does not own the validator and
 keeps the defaults

---
 single_include/blet/args.h | 4 ++--
 src/argument.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b85f670..c8351d7 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3346,10 +3346,10 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator stays owned by the source
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
diff --git a/src/argument.cpp b/src/argument.cpp
index ed0e880..757a099 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -132,10 +132,10 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator stays owned by the source
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
-- 
2.43.0


From 4ceebadd7ca5175613ed3a557cbd2775a95305af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 05/16] fix: pointers of vector destinations refer to the
 stored strings

---
 include/blet/args/argument.h | 12 ++++++++----
 single_include/blet/args.h   | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 3f4a8b4..6567ba3 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -657,6 +657,10 @@ class Argument : public ArgumentElement {
      */
     void replace_(Argument* argument);
 
+    static const std::string& elementString_(const ArgumentElement& element) {
+        return element.argument_;
+    }
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -752,13 +756,13 @@ class ArgumentVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(elementString_(at(i).at(j)), dest);
                             dest_.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(elementString_(at(i)), dest);
                         dest_.push_back(dest);
                     }
                 }
@@ -828,13 +832,13 @@ class ArgumentVectorVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(elementString_(at(i).at(j)), dest);
                             vectorDest.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(elementString_(at(i)), dest);
                         vectorDest.push_back(dest);
                     }
                     dest_.push_back(vectorDest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c8351d7..c3cac70 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1208,6 +1208,10 @@ class Argument : public ArgumentElement {
      */
     void replace_(Argument* argument);
 
+    static const std::string& elementString_(const ArgumentElement& element) {
+        return element.argument_;
+    }
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -1303,13 +1307,13 @@ class ArgumentVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(elementString_(at(i).at(j)), dest);
                             dest_.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(elementString_(at(i)), dest);
                         dest_.push_back(dest);
                     }
                 }
@@ -1379,13 +1383,13 @@ class ArgumentVectorVectorType : public Argument {
                     if (!at(i).empty()) {
                         for (std::size_t j = 0; j < at(i).size(); ++j) {
                             T dest;
-                            strTo(at(i).at(j).getString(), dest);
+                            strTo(elementString_(at(i).at(j)), dest);
                             vectorDest.push_back(dest);
                         }
                     }
                     else {
                         T dest;
-                        strTo(at(i).getString(), dest);
+                        strTo(elementString_(at(i)), dest);
                         vectorDest.push_back(dest);
                     }
                     dest_.push_back(vectorDest);
-- 
2.43.0


From 37b4727711d635bc4f4ebe9e70afe82b9f08dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 06/16] fix: nargs 0 does not override the store_false, help
 and version actions

---
 single_include/blet/args.h | 5 ++++-
 src/argument.cpp           | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c3cac70..2074f9f 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3659,7 +3659,7 @@ inline void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+    else if (action_ == Action::STORE_TRUE) {
         nargs_ = 0;
         type_ = Argument::BOOLEAN_OPTION;
     }
@@ -3687,6 +3687,9 @@ inline void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0) {
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
diff --git a/src/argument.cpp b/src/argument.cpp
index 757a099..6c45924 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -441,7 +441,7 @@ void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+    else if (action_ == Action::STORE_TRUE) {
         nargs_ = 0;
         type_ = Argument::BOOLEAN_OPTION;
     }
@@ -469,6 +469,9 @@ void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0) {
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
-- 
2.43.0


From 0a6f3c252713cda1df0be4a0486cdd85f11243b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 07/16] fix: a refused action, nargs or defaults leaves the
 argument unchanged

---
 include/blet/args/argument.h | 18 +++++++---
 single_include/blet/args.h   | 70 ++++++++++++++++++++++++++----------
 src/argument.cpp             | 48 +++++++++++++++++++------
 3 files changed, 102 insertions(+), 34 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 6567ba3..c5af748 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -512,9 +512,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        configure_(nargs__, action_, defaults_);
         return *this;
     }
 
@@ -527,8 +525,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+        configure_(nargs_, action_, defaults__);
         return *this;
     }
 
@@ -642,6 +639,17 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    /**
+     * @brief Change the configuration, nothing is changed when it throws
+     *
+     * @param nargs__
+     * @param action__
+     * @param defaults__
+     *
+     * @throw ArgumentException
+     */
+    void configure_(std::size_t nargs__, enum Action::eAction action__, const std::vector<std::string>& defaults__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 2074f9f..8136d55 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1062,10 +1062,8 @@ class Argument : public ArgumentElement {
      *
      * @throw ArgumentException
      */
-    inline Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+    Argument& nargs(std::size_t nargs__) {
+        configure_(nargs__, action_, defaults_);
         return *this;
     }
 
@@ -1077,9 +1075,8 @@ class Argument : public ArgumentElement {
      *
      * @throw ArgumentException
      */
-    inline Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+    Argument& defaults(const Vector& defaults__) {
+        configure_(nargs_, action_, defaults__);
         return *this;
     }
 
@@ -1193,6 +1190,17 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    /**
+     * @brief Change the configuration, nothing is changed when it throws
+     *
+     * @param nargs__
+     * @param action__
+     * @param defaults__
+     *
+     * @throw ArgumentException
+     */
+    void configure_(std::size_t nargs__, enum Action::eAction action__, const std::vector<std::string>& defaults__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
@@ -3468,17 +3476,7 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (action_ == Action::HELP) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (action_ == Action::VERSION) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    configure_(nargs_, action__, defaults_);
     return *this;
 }
 
@@ -3638,6 +3636,42 @@ inline std::string Argument::metavarDefault_() {
     }
 }
 
+inline void Argument::configure_(std::size_t nargs__, enum Action::eAction action__,
+                          const std::vector<std::string>& defaults__) {
+    // save the current configuration
+    std::vector<std::string> defaults(defaults__);
+    const std::size_t nargs = nargs_;
+    const enum Action::eAction action = action_;
+    const enum Type type = type_;
+    Argument* const helpOption = args_.helpOption_;
+    Argument* const versionOption = args_.versionOption_;
+    // reset help option
+    if (args_.helpOption_ == this) {
+        args_.helpOption_ = NULL;
+    }
+    // reset version option
+    if (args_.versionOption_ == this) {
+        args_.versionOption_ = NULL;
+    }
+    nargs_ = nargs__;
+    action_ = action__;
+    defaults_.swap(defaults);
+    try {
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (...) {
+        // restore the previous configuration
+        nargs_ = nargs;
+        action_ = action;
+        type_ = type;
+        defaults_.swap(defaults);
+        args_.helpOption_ = helpOption;
+        args_.versionOption_ = versionOption;
+        throw;
+    }
+}
+
 inline void Argument::typeConstructor_() {
     if (isPositionnalArgument_()) {
         if (nargs_ == 1 && action_ == Action::NONE) {
diff --git a/src/argument.cpp b/src/argument.cpp
index 6c45924..c6876af 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -250,17 +250,7 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (action_ == Action::HELP) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (action_ == Action::VERSION) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    configure_(nargs_, action__, defaults_);
     return *this;
 }
 
@@ -420,6 +410,42 @@ std::string Argument::metavarDefault_() {
     }
 }
 
+void Argument::configure_(std::size_t nargs__, enum Action::eAction action__,
+                          const std::vector<std::string>& defaults__) {
+    // save the current configuration
+    std::vector<std::string> defaults(defaults__);
+    const std::size_t nargs = nargs_;
+    const enum Action::eAction action = action_;
+    const enum Type type = type_;
+    Argument* const helpOption = args_.helpOption_;
+    Argument* const versionOption = args_.versionOption_;
+    // reset help option
+    if (args_.helpOption_ == this) {
+        args_.helpOption_ = NULL;
+    }
+    // reset version option
+    if (args_.versionOption_ == this) {
+        args_.versionOption_ = NULL;
+    }
+    nargs_ = nargs__;
+    action_ = action__;
+    defaults_.swap(defaults);
+    try {
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (...) {
+        // restore the previous configuration
+        nargs_ = nargs;
+        action_ = action;
+        type_ = type;
+        defaults_.swap(defaults);
+        args_.helpOption_ = helpOption;
+        args_.versionOption_ = versionOption;
+        throw;
+    }
+}
+
 void Argument::typeConstructor_() {
     if (isPositionnalArgument_()) {
         if (nargs_ == 1 && action_ == Action::NONE) {
-- 
2.43.0


From 94230d5650edbadd63c09a83458d79e4b0a66939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 08/16] fix: the default texts and values always follow nargs,
 action and defaults

---
 single_include/blet/args.h | 39 +++++++++++++++++++++-----------------
 src/argument.cpp           | 39 +++++++++++++++++++++-----------------
 2 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 8136d55..aaabe1f 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3757,40 +3757,38 @@ inline void Argument::typeConstructor_() {
 }
 
 inline void Argument::defaultsConstructor_() {
+    std::string newDefault;
+    std::vector<ArgumentElement> newElements;
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-            argument_ = defaults_.front();
-            default_ = defaults_.front();
+            newDefault = defaults_.front();
         }
         if (type_ == Argument::NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::NUMBER_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
-                    default_ += ", ";
+                    newDefault += ", ";
                 }
-                default_ += defaults_[i];
-                push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
+                newDefault += defaults_[i];
+                newElements.push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
             }
         }
         if (type_ == Argument::INFINITE_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_OPTION ||
             type_ == Argument::INFINITE_OPTION || type_ == Argument::MULTI_INFINITE_OPTION) {
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
-                    default_ += ", ";
+                    newDefault += ", ";
                 }
-                default_ += defaults_[i];
-                push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
+                newDefault += defaults_[i];
+                newElements.push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
             }
         }
         if (type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_NUMBER_OPTION ||
@@ -3801,25 +3799,32 @@ inline void Argument::defaultsConstructor_() {
             }
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
-                    default_ += ", ";
+                    newDefault += ", ";
                 }
-                default_ += "(";
+                newDefault += "(";
                 ArgumentElement newNumberArgument;
                 for (std::size_t j = 0; j < nargs_; ++j) {
                     if (j > 0) {
-                        default_ += ", ";
+                        newDefault += ", ";
                         newNumberArgument.default_ += ", ";
                     }
-                    default_ += defaults_[i * nargs_ + j];
+                    newDefault += defaults_[i * nargs_ + j];
                     newNumberArgument.default_ += defaults_[i * nargs_ + j];
                     newNumberArgument.push_back(
                         ArgumentElement(defaults_[i * nargs_ + j].c_str(), defaults_[i * nargs_ + j].c_str()));
                 }
-                default_ += ")";
-                push_back(newNumberArgument);
+                newDefault += ")";
+                newElements.push_back(newNumberArgument);
             }
         }
     }
+    std::string newArgument(newDefault);
+    // the values are the defaults
+    swap(newElements);
+    argument_.swap(newArgument);
+    default_.swap(newDefault);
+    isNumber_ = false;
+    number_ = 0.0;
 }
 
 inline void Argument::clear_() {
diff --git a/src/argument.cpp b/src/argument.cpp
index c6876af..c759815 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -531,40 +531,38 @@ void Argument::typeConstructor_() {
 }
 
 void Argument::defaultsConstructor_() {
+    std::string newDefault;
+    std::vector<ArgumentElement> newElements;
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-            argument_ = defaults_.front();
-            default_ = defaults_.front();
+            newDefault = defaults_.front();
         }
         if (type_ == Argument::NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::NUMBER_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
-                    default_ += ", ";
+                    newDefault += ", ";
                 }
-                default_ += defaults_[i];
-                push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
+                newDefault += defaults_[i];
+                newElements.push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
             }
         }
         if (type_ == Argument::INFINITE_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_OPTION ||
             type_ == Argument::INFINITE_OPTION || type_ == Argument::MULTI_INFINITE_OPTION) {
-            default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
-                    default_ += ", ";
+                    newDefault += ", ";
                 }
-                default_ += defaults_[i];
-                push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
+                newDefault += defaults_[i];
+                newElements.push_back(ArgumentElement(defaults_[i].c_str(), defaults_[i].c_str()));
             }
         }
         if (type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_NUMBER_OPTION ||
@@ -575,25 +573,32 @@ void Argument::defaultsConstructor_() {
             }
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
-                    default_ += ", ";
+                    newDefault += ", ";
                 }
-                default_ += "(";
+                newDefault += "(";
                 ArgumentElement newNumberArgument;
                 for (std::size_t j = 0; j < nargs_; ++j) {
                     if (j > 0) {
-                        default_ += ", ";
+                        newDefault += ", ";
                         newNumberArgument.default_ += ", ";
                     }
-                    default_ += defaults_[i * nargs_ + j];
+                    newDefault += defaults_[i * nargs_ + j];
                     newNumberArgument.default_ += defaults_[i * nargs_ + j];
                     newNumberArgument.push_back(
                         ArgumentElement(defaults_[i * nargs_ + j].c_str(), defaults_[i * nargs_ + j].c_str()));
                 }
-                default_ += ")";
-                push_back(newNumberArgument);
+                newDefault += ")";
+                newElements.push_back(newNumberArgument);
             }
         }
     }
+    std::string newArgument(newDefault);
+    // the values are the defaults
+    swap(newElements);
+    argument_.swap(newArgument);
+    default_.swap(newDefault);
+    isNumber_ = false;
+    number_ = 0.0;
 }
 
 void Argument::clear_() {
-- 
2.43.0


From bfe7e4ec1c08c9af3afa92fa9b77bdb997bdb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 09/16] fix: a parse does not keep values of the previous parse

---
 include/blet/args/argument.h |  2 ++
 single_include/blet/args.h   | 38 ++++++++++++++++--------------------
 src/args.cpp                 | 17 ++++++++--------
 src/argument.cpp             | 19 ++++++------------
 4 files changed, 34 insertions(+), 42 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index c5af748..c6c6509 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -658,6 +658,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void clearValues_();
+
     /**
      * @brief Take the place of argument in the registry and delete it
      *
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index aaabe1f..1b73026 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1209,6 +1209,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void clearValues_();
+
     /**
      * @brief Take the place of argument in the registry and delete it
      *
@@ -2623,6 +2625,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -2977,14 +2980,14 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
             }
             case Argument::INFINITE_OPTION: {
-                argument->clear();
+                argument->clearValues_();
                 argument->push_back(arg);
                 break;
             }
             case Argument::MULTI_OPTION:
             case Argument::MULTI_INFINITE_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 argument->push_back(arg);
                 break;
@@ -3005,7 +3008,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 argument->argument_ = argv[*index];
                 break;
             case Argument::NUMBER_OPTION:
-                argument->clear();
+                argument->clearValues_();
                 if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
@@ -3015,7 +3018,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 *index += argument->nargs_;
                 break;
             case Argument::INFINITE_OPTION: {
-                argument->clear();
+                argument->clearValues_();
                 std::size_t countArg = 0;
                 for (int i = *index + 1; i < maxIndex; ++i) {
                     if (endOfInfiniteArgument_(argv[i])) {
@@ -3029,7 +3032,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
             }
             case Argument::MULTI_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 if (*index + 1 >= maxIndex) {
                     throw ParseArgumentException(option, "bad number of argument");
@@ -3040,7 +3043,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
             }
             case Argument::MULTI_INFINITE_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 std::size_t countArg = 0;
                 for (int i = *index + 1; i < maxIndex; ++i) {
@@ -3055,7 +3058,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
             }
             case Argument::MULTI_NUMBER_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
                     throw ParseArgumentException(option, "bad number of argument");
@@ -3070,7 +3073,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
             }
             case Argument::MULTI_NUMBER_INFINITE_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 std::size_t countArg = 0;
                 for (int i = *index + 1; i < maxIndex; i += argument->nargs_) {
@@ -3828,21 +3831,14 @@ inline void Argument::defaultsConstructor_() {
 }
 
 inline void Argument::clear_() {
-    argument_ = default_;
-    isNumber_ = false;
-    number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    defaultsConstructor_();
+}
+
+inline void Argument::clearValues_() {
+    clear();
+    argument_.clear();
 }
 
 inline void Argument::replace_(Argument* argument) {
diff --git a/src/args.cpp b/src/args.cpp
index e421e2c..49dc2ca 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -419,14 +420,14 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
             }
             case Argument::INFINITE_OPTION: {
-                argument->clear();
+                argument->clearValues_();
                 argument->push_back(arg);
                 break;
             }
             case Argument::MULTI_OPTION:
             case Argument::MULTI_INFINITE_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 argument->push_back(arg);
                 break;
@@ -447,7 +448,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 argument->argument_ = argv[*index];
                 break;
             case Argument::NUMBER_OPTION:
-                argument->clear();
+                argument->clearValues_();
                 if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
@@ -457,7 +458,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 *index += argument->nargs_;
                 break;
             case Argument::INFINITE_OPTION: {
-                argument->clear();
+                argument->clearValues_();
                 std::size_t countArg = 0;
                 for (int i = *index + 1; i < maxIndex; ++i) {
                     if (endOfInfiniteArgument_(argv[i])) {
@@ -471,7 +472,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
             }
             case Argument::MULTI_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 if (*index + 1 >= maxIndex) {
                     throw ParseArgumentException(option, "bad number of argument");
@@ -482,7 +483,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
             }
             case Argument::MULTI_INFINITE_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 std::size_t countArg = 0;
                 for (int i = *index + 1; i < maxIndex; ++i) {
@@ -497,7 +498,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
             }
             case Argument::MULTI_NUMBER_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
                     throw ParseArgumentException(option, "bad number of argument");
@@ -512,7 +513,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
             }
             case Argument::MULTI_NUMBER_INFINITE_OPTION: {
                 if (argument->isExist_ == false) {
-                    argument->clear();
+                    argument->clearValues_();
                 }
                 std::size_t countArg = 0;
                 for (int i = *index + 1; i < maxIndex; i += argument->nargs_) {
diff --git a/src/argument.cpp b/src/argument.cpp
index c759815..c33e5b1 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -602,21 +602,14 @@ void Argument::defaultsConstructor_() {
 }
 
 void Argument::clear_() {
-    argument_ = default_;
-    isNumber_ = false;
-    number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    defaultsConstructor_();
+}
+
+void Argument::clearValues_() {
+    clear();
+    argument_.clear();
 }
 
 void Argument::replace_(Argument* argument) {
-- 
2.43.0


From 34d385575349bcbcf1f5eb777b2cd0c7f9cb6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 10/16] fix: the given values of positional arguments replace
 the defaults

---
 single_include/blet/args.h | 3 +++
 src/args.cpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1b73026..e10d05c 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3167,12 +3167,14 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clearValues_();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clearValues_();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -3184,6 +3186,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clearValues_();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
diff --git a/src/args.cpp b/src/args.cpp
index 49dc2ca..a31fa0c 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -607,12 +607,14 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clearValues_();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clearValues_();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -624,6 +626,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clearValues_();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
-- 
2.43.0


From 366603f864d6fe90bd818f6ba2b58ee1e66c6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 11/16] fix: an option with an attached value is counted once
 and replaces the defaults

---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index e10d05c..bd048dd 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2931,8 +2931,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index a31fa0c..e330fd0 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -371,8 +371,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From 8a4337153d8958e580e7c67974e24f3c8b78f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 12/16] fix: every kind of positional argument is reported as a
 required argument

---
 single_include/blet/args.h | 2 +-
 src/args.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bd048dd..dcdf6c8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2695,7 +2695,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
diff --git a/src/args.cpp b/src/args.cpp
index e330fd0..c770bc6 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -135,7 +135,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
-- 
2.43.0


From 63ba7715a07b5a91d96a17f374a169124b8610f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 13/16] fix: argv[0] is neither read when argc is 0 nor taken
 as the end of options

---
 include/blet/args/utils.h  | 3 ++-
 single_include/blet/args.h | 5 +++--
 src/args.cpp               | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..909177f 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,8 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    // argv[0] is not an option
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index dcdf6c8..bcb4943 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2545,7 +2545,8 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    // argv[0] is not an option
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
@@ -2644,7 +2645,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
diff --git a/src/args.cpp b/src/args.cpp
index c770bc6..514bbe9 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -84,7 +84,7 @@ void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
-- 
2.43.0


From 10c57b6fb11183ec187207cbe03aaaad262bf588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 14/16] fix: an allocation failure neither leaks, truncates a
 text nor leaves a half registered argument

---
 single_include/blet/args.h | 91 ++++++++++++++++++++++++++------------
 src/args.cpp               | 50 ++++++++++++++-------
 src/argument.cpp           | 25 ++++++-----
 src/usage.cpp              |  7 +++
 src/valid.cpp              |  9 ++++
 5 files changed, 126 insertions(+), 56 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bcb4943..f4de6ca 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2642,7 +2642,9 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        std::string help("show this help message and exit");
+        Argument& argument = addArgument(flags).action(Action::HELP);
+        argument.help_.swap(help);
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty() && argc > 0) {
@@ -2781,7 +2783,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
     if (nameOrFlags.empty()) {
         throw ArgumentException("", "invalid empty flag");
     }
-    Argument* argument = NULL;
+    std::vector<std::string> newFlags;
+    bool isName = false;
     // is name
     if (nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-') {
         if (nameOrFlags.front().empty()) {
@@ -2790,15 +2793,10 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
         if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags.front().c_str(), "bad name argument already exist");
         }
-        // create argument
-        argument = new Argument(*this);
-        argument->nameOrFlags_.push_back(nameOrFlags.front());
-        argument->nargs_ = 1;
-        argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        newFlags.push_back(nameOrFlags.front());
+        isName = true;
     }
     else {
-        std::vector<std::string> newFlags;
-
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
             if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
@@ -2808,17 +2806,35 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
                 newFlags.push_back(nameOrFlags[i]);
             }
         }
-
-        argument = new Argument(*this);
-        argument->nameOrFlags_ = newFlags;
-        argument->sortNameOrFlags_();
     }
 
-    arguments_.push_back(argument);
+    // create argument
+    arguments_.push_back(NULL);
     Argument** addrNewArgument = &(arguments_.back());
-    argument->this_ = addrNewArgument;
-    for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
-        argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+    try {
+        Argument* argument = new Argument(*this);
+        *addrNewArgument = argument;
+        argument->this_ = addrNewArgument;
+        argument->nameOrFlags_ = newFlags;
+        if (isName) {
+            argument->nargs_ = 1;
+            argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        }
+        else {
+            argument->sortNameOrFlags_();
+        }
+        for (std::size_t i = 0; i < newFlags.size(); ++i) {
+            argumentFromName_.insert(std::pair<std::string, Argument**>(newFlags[i], addrNewArgument));
+        }
+    }
+    catch (...) {
+        // remove the incomplete argument
+        for (std::size_t i = 0; i < newFlags.size(); ++i) {
+            argumentFromName_.erase(newFlags[i]);
+        }
+        delete *addrNewArgument;
+        arguments_.pop_back();
+        throw;
     }
     arguments_.sort(&Argument::compareOption_);
     return **addrNewArgument;
@@ -3383,31 +3399,29 @@ inline std::string Argument::getString() const {
         ret = (isExist_) ? "false" : "true";
     }
     else {
-        std::ostringstream oss("");
         if (!empty()) {
             for (std::size_t i = 0; i < size(); ++i) {
                 if (i > 0) {
-                    oss << ", ";
+                    ret += ", ";
                 }
                 if (!at(i).empty()) {
-                    oss << "(";
+                    ret += "(";
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
                         if (j > 0) {
-                            oss << ", ";
+                            ret += ", ";
                         }
-                        oss << at(i).at(j).argument_;
+                        ret += at(i).at(j).argument_;
                     }
-                    oss << ")";
+                    ret += ")";
                 }
                 else {
-                    oss << at(i).argument_;
+                    ret += at(i).argument_;
                 }
             }
         }
         else {
-            oss << argument_;
+            ret = argument_;
         }
-        ret = oss.str();
     }
     return ret;
 }
@@ -3473,9 +3487,11 @@ inline Argument& Argument::flag(const char* flag__) {
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
     }
-    nameOrFlags_.push_back(flag__);
-    sortNameOrFlags_();
+    std::vector<std::string> newFlags(nameOrFlags_);
+    newFlags.push_back(flag__);
+    std::sort(newFlags.begin(), newFlags.end(), &compareFlag);
     args_.argumentFromName_.insert(std::pair<std::string, Argument**>(flag__, this_));
+    nameOrFlags_.swap(newFlags);
     args_.arguments_.sort(&Argument::compareOption_);
     return *this;
 }
@@ -3589,17 +3605,20 @@ inline void Argument::toNumber_() {
                 if (!at(i).empty()) {
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
                         std::stringstream ss(at(i).at(j).argument_);
+                        ss.exceptions(std::ios::badbit);
                         at(i).at(j).isNumber_ = static_cast<bool>(ss >> at(i).at(j).number_);
                     }
                 }
                 else {
                     std::stringstream ss(at(i).argument_);
+                    ss.exceptions(std::ios::badbit);
                     at(i).isNumber_ = static_cast<bool>(ss >> at(i).number_);
                 }
             }
         }
         else {
             std::stringstream ss(argument_);
+            ss.exceptions(std::ios::badbit);
             isNumber_ = static_cast<bool>(ss >> number_);
         }
     }
@@ -4032,6 +4051,7 @@ static inline std::list<std::string> s_multilineWrap(const std::string& str, std
     std::list<std::string> lines;
     std::string line;
     std::istringstream iss(str);
+    iss.exceptions(std::ios::badbit);
     while (std::getline(iss, line)) {
         while (line.size() >= widthMax) {
             std::size_t spacePos = line.rfind(' ', widthMax);
@@ -4056,6 +4076,7 @@ inline std::string Usage::getUsage() const {
         return usage_;
     }
     std::ostringstream oss("");
+    oss.exceptions(std::ios::badbit);
     bool hasOption = false;
     bool hasPositionnal = false;
     bool hasMultiLine = false;
@@ -4082,6 +4103,7 @@ inline std::string Usage::getUsage() const {
         }
         hasOption = true;
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -4133,6 +4155,7 @@ inline std::string Usage::getUsage() const {
             continue;
         }
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -4209,6 +4232,7 @@ inline std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
@@ -4240,6 +4264,7 @@ inline std::string Usage::getUsage() const {
                 }
                 ++index;
                 std::ostringstream ossArgument("");
+                ossArgument.exceptions(std::ios::badbit);
                 for (std::size_t i = 0; i < (*it)->nameOrFlags_.size(); ++i) {
                     if (i != 0) {
                         ossArgument << ", ";
@@ -4280,6 +4305,7 @@ inline std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
@@ -4378,6 +4404,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
         ::strtod(args[i].c_str(), &endPtr);
         if (endPtr != NULL && endPtr[0] != '\0') {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -4406,15 +4433,18 @@ inline ValidMinMax::~ValidMinMax() {}
 inline bool ValidMinMax::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         std::stringstream ssArg("");
+        ssArg.exceptions(std::ios::badbit);
         ssArg << args[i];
         double number;
         if (!(ssArg >> number)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (number < min_ || number > max_) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << args[i] << " is not between " << min_ << " and " << max_;
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -4435,6 +4465,7 @@ inline ValidChoise::~ValidChoise() {}
 
 inline bool ValidChoise::isValid(std::vector<std::string>& args) {
     std::ostringstream ossChoise("");
+    ossChoise.exceptions(std::ios::badbit);
     for (std::size_t i = 0; i < choises_.size(); ++i) {
         if (i > 0) {
             ossChoise << ", ";
@@ -4450,6 +4481,7 @@ inline bool ValidChoise::isValid(std::vector<std::string>& args) {
         }
         if (j == choises_.size()) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid choise (" << ossChoise.str() << ')';
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -4473,16 +4505,19 @@ inline bool ValidPath::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         if (::stat(args[i].c_str(), &statBuff) == -1) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid path";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (mode_ == ValidPath::IS_DIR && !S_ISDIR(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid directory";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         else if (mode_ == ValidPath::IS_FILE && !S_ISREG(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid file";
             throw ParseArgumentValidException(oss.str().c_str());
         }
diff --git a/src/args.cpp b/src/args.cpp
index 514bbe9..8354330 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -81,7 +81,9 @@ void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        std::string help("show this help message and exit");
+        Argument& argument = addArgument(flags).action(Action::HELP);
+        argument.help_.swap(help);
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty() && argc > 0) {
@@ -220,7 +222,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
     if (nameOrFlags.empty()) {
         throw ArgumentException("", "invalid empty flag");
     }
-    Argument* argument = NULL;
+    std::vector<std::string> newFlags;
+    bool isName = false;
     // is name
     if (nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-') {
         if (nameOrFlags.front().empty()) {
@@ -229,15 +232,10 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
         if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags.front().c_str(), "bad name argument already exist");
         }
-        // create argument
-        argument = new Argument(*this);
-        argument->nameOrFlags_.push_back(nameOrFlags.front());
-        argument->nargs_ = 1;
-        argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        newFlags.push_back(nameOrFlags.front());
+        isName = true;
     }
     else {
-        std::vector<std::string> newFlags;
-
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
             if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
@@ -247,17 +245,35 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
                 newFlags.push_back(nameOrFlags[i]);
             }
         }
-
-        argument = new Argument(*this);
-        argument->nameOrFlags_ = newFlags;
-        argument->sortNameOrFlags_();
     }
 
-    arguments_.push_back(argument);
+    // create argument
+    arguments_.push_back(NULL);
     Argument** addrNewArgument = &(arguments_.back());
-    argument->this_ = addrNewArgument;
-    for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
-        argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+    try {
+        Argument* argument = new Argument(*this);
+        *addrNewArgument = argument;
+        argument->this_ = addrNewArgument;
+        argument->nameOrFlags_ = newFlags;
+        if (isName) {
+            argument->nargs_ = 1;
+            argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        }
+        else {
+            argument->sortNameOrFlags_();
+        }
+        for (std::size_t i = 0; i < newFlags.size(); ++i) {
+            argumentFromName_.insert(std::pair<std::string, Argument**>(newFlags[i], addrNewArgument));
+        }
+    }
+    catch (...) {
+        // remove the incomplete argument
+        for (std::size_t i = 0; i < newFlags.size(); ++i) {
+            argumentFromName_.erase(newFlags[i]);
+        }
+        delete *addrNewArgument;
+        arguments_.pop_back();
+        throw;
     }
     arguments_.sort(&Argument::compareOption_);
     return **addrNewArgument;
diff --git a/src/argument.cpp b/src/argument.cpp
index c33e5b1..f33d786 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -152,31 +152,29 @@ std::string Argument::getString() const {
         ret = (isExist_) ? "false" : "true";
     }
     else {
-        std::ostringstream oss("");
         if (!empty()) {
             for (std::size_t i = 0; i < size(); ++i) {
                 if (i > 0) {
-                    oss << ", ";
+                    ret += ", ";
                 }
                 if (!at(i).empty()) {
-                    oss << "(";
+                    ret += "(";
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
                         if (j > 0) {
-                            oss << ", ";
+                            ret += ", ";
                         }
-                        oss << at(i).at(j).argument_;
+                        ret += at(i).at(j).argument_;
                     }
-                    oss << ")";
+                    ret += ")";
                 }
                 else {
-                    oss << at(i).argument_;
+                    ret += at(i).argument_;
                 }
             }
         }
         else {
-            oss << argument_;
+            ret = argument_;
         }
-        ret = oss.str();
     }
     return ret;
 }
@@ -242,9 +240,11 @@ Argument& Argument::flag(const char* flag__) {
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
     }
-    nameOrFlags_.push_back(flag__);
-    sortNameOrFlags_();
+    std::vector<std::string> newFlags(nameOrFlags_);
+    newFlags.push_back(flag__);
+    std::sort(newFlags.begin(), newFlags.end(), &compareFlag);
     args_.argumentFromName_.insert(std::pair<std::string, Argument**>(flag__, this_));
+    nameOrFlags_.swap(newFlags);
     args_.arguments_.sort(&Argument::compareOption_);
     return *this;
 }
@@ -358,17 +358,20 @@ void Argument::toNumber_() {
                 if (!at(i).empty()) {
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
                         std::stringstream ss(at(i).at(j).argument_);
+                        ss.exceptions(std::ios::badbit);
                         at(i).at(j).isNumber_ = static_cast<bool>(ss >> at(i).at(j).number_);
                     }
                 }
                 else {
                     std::stringstream ss(at(i).argument_);
+                    ss.exceptions(std::ios::badbit);
                     at(i).isNumber_ = static_cast<bool>(ss >> at(i).number_);
                 }
             }
         }
         else {
             std::stringstream ss(argument_);
+            ss.exceptions(std::ios::badbit);
             isNumber_ = static_cast<bool>(ss >> number_);
         }
     }
diff --git a/src/usage.cpp b/src/usage.cpp
index 4a8f975..6538644 100644
--- a/src/usage.cpp
+++ b/src/usage.cpp
@@ -56,6 +56,7 @@ static inline std::list<std::string> s_multilineWrap(const std::string& str, std
     std::list<std::string> lines;
     std::string line;
     std::istringstream iss(str);
+    iss.exceptions(std::ios::badbit);
     while (std::getline(iss, line)) {
         while (line.size() >= widthMax) {
             std::size_t spacePos = line.rfind(' ', widthMax);
@@ -80,6 +81,7 @@ std::string Usage::getUsage() const {
         return usage_;
     }
     std::ostringstream oss("");
+    oss.exceptions(std::ios::badbit);
     bool hasOption = false;
     bool hasPositionnal = false;
     bool hasMultiLine = false;
@@ -106,6 +108,7 @@ std::string Usage::getUsage() const {
         }
         hasOption = true;
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -157,6 +160,7 @@ std::string Usage::getUsage() const {
             continue;
         }
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -233,6 +237,7 @@ std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
@@ -264,6 +269,7 @@ std::string Usage::getUsage() const {
                 }
                 ++index;
                 std::ostringstream ossArgument("");
+                ossArgument.exceptions(std::ios::badbit);
                 for (std::size_t i = 0; i < (*it)->nameOrFlags_.size(); ++i) {
                     if (i != 0) {
                         ossArgument << ", ";
@@ -304,6 +310,7 @@ std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..d1c354e 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -51,6 +51,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
         ::strtod(args[i].c_str(), &endPtr);
         if (endPtr != NULL && endPtr[0] != '\0') {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -79,15 +80,18 @@ ValidMinMax::~ValidMinMax() {}
 bool ValidMinMax::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         std::stringstream ssArg("");
+        ssArg.exceptions(std::ios::badbit);
         ssArg << args[i];
         double number;
         if (!(ssArg >> number)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (number < min_ || number > max_) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << args[i] << " is not between " << min_ << " and " << max_;
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -108,6 +112,7 @@ ValidChoise::~ValidChoise() {}
 
 bool ValidChoise::isValid(std::vector<std::string>& args) {
     std::ostringstream ossChoise("");
+    ossChoise.exceptions(std::ios::badbit);
     for (std::size_t i = 0; i < choises_.size(); ++i) {
         if (i > 0) {
             ossChoise << ", ";
@@ -123,6 +128,7 @@ bool ValidChoise::isValid(std::vector<std::string>& args) {
         }
         if (j == choises_.size()) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid choise (" << ossChoise.str() << ')';
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -146,16 +152,19 @@ bool ValidPath::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         if (::stat(args[i].c_str(), &statBuff) == -1) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid path";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (mode_ == ValidPath::IS_DIR && !S_ISDIR(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid directory";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         else if (mode_ == ValidPath::IS_FILE && !S_ISREG(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios::badbit);
             oss << '\"' << args[i] << "\" is not a valid file";
             throw ParseArgumentValidException(oss.str().c_str());
         }
-- 
2.43.0


From 57a625d24b3e228c75b10559dc17004a135908a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 15/16] fix: ValidNumber refuses an empty text

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index f4de6ca..291d2f8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4402,7 +4402,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss.exceptions(std::ios::badbit);
             oss << "\"" << args[i] << "\" is not a number";
diff --git a/src/valid.cpp b/src/valid.cpp
index d1c354e..2f296e8 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss.exceptions(std::ios::badbit);
             oss << "\"" << args[i] << "\" is not a number";
-- 
2.43.0


From 333d20a27ca1026a7b416e3d9f7eef2007c6eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:45 +0000
Subject: [PATCH 16/16] fix: a number of values beyond any command line is
 refused instead of wrapping around

---
 single_include/blet/args.h | 10 +++++-----
 src/args.cpp               | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 291d2f8..d969f89 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3024,7 +3024,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clearValues_();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -3075,7 +3075,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 if (argument->isExist_ == false) {
                     argument->clearValues_();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -3095,7 +3095,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -3179,7 +3179,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             argument.clearValues_();
@@ -3207,7 +3207,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
diff --git a/src/args.cpp b/src/args.cpp
index 8354330..8863393 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -463,7 +463,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clearValues_();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -514,7 +514,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 if (argument->isExist_ == false) {
                     argument->clearValues_();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -534,7 +534,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -618,7 +618,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             argument.clearValues_();
@@ -646,7 +646,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
-- 
2.43.0

