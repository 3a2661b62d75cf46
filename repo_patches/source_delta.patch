From b7a9dca50845a99536490cc14b4b7cc191fec9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 01/27] fix: addArgument checks every flag of the list for an
 existing owner

---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..047b5a0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2793,8 +2793,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..0fd6936 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From ba606601e472bbb9046137f797e7b25761841ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 02/27] fix: removeArguments accepts a name given twice (used
 an erased iterator)

---
 single_include/blet/args.h | 5 ++++-
 src/args.cpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 047b5a0..65d50b8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2827,7 +2827,10 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        // a name given twice is removed once
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
diff --git a/src/args.cpp b/src/args.cpp
index 0fd6936..5b27b7b 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -273,7 +273,10 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        // a name given twice is removed once
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
-- 
2.43.0


From 84f01ac55d68ad11f010a5ebaed0b979bbd62af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 03/27] fix: a value glued to a short option counts once and
 replaces the defaults

---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 65d50b8..b847667 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2924,8 +2924,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index 5b27b7b..8a72fdf 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -370,8 +370,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From 44c209ad2c7124b581d3e2783b6b6ed62f99c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 04/27] fix: values of a positional list replace its defaults

---
 single_include/blet/args.h | 2 ++
 src/args.cpp               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b847667..b2f9f10 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3151,6 +3151,8 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
     }
     if (it != arguments_.end()) {
         Argument& argument = *(*it);
+        // remove default values
+        argument.clear();
         if (argument.type_ == Argument::POSITIONAL_ARGUMENT) {
             argument.argument_ = argv[*index];
         }
diff --git a/src/args.cpp b/src/args.cpp
index 8a72fdf..eec6d50 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -597,6 +597,8 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
     }
     if (it != arguments_.end()) {
         Argument& argument = *(*it);
+        // remove default values
+        argument.clear();
         if (argument.type_ == Argument::POSITIONAL_ARGUMENT) {
             argument.argument_ = argv[*index];
         }
-- 
2.43.0


From c429458cf5d49c052b3840be3b5ba9a41014b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 05/27] fix: count the occurrence of a positional argument

---
 single_include/blet/args.h | 1 +
 src/args.cpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b2f9f10..79a7332 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3195,6 +3195,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         argument.isExist_ = true;
+        ++argument.count_;
     }
     else {
         if (isStrict_) {
diff --git a/src/args.cpp b/src/args.cpp
index eec6d50..e9096cb 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -641,6 +641,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         argument.isExist_ = true;
+        ++argument.count_;
     }
     else {
         if (isStrict_) {
-- 
2.43.0


From d40fe31a8e5e0733d0c305e90ded5a303f057959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 06/27] fix: keep the declared defaults when an argument is
 copied (dest)

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 79a7332..3c68713 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3358,7 +3358,7 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..cac5c95 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -135,7 +135,7 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
-- 
2.43.0


From f72db9ba2a6ebf42b4e217a1c52c232f064e1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 07/27] fix: defaults declared again or for another action
 replace the previous ones

---
 single_include/blet/args.h | 5 ++++-
 src/argument.cpp           | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 3c68713..89aecaa 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3725,9 +3725,12 @@ inline void Argument::typeConstructor_() {
 }
 
 inline void Argument::defaultsConstructor_() {
+    // remove previous default arguments
+    clear();
+    argument_ = "";
+    default_ = "";
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
diff --git a/src/argument.cpp b/src/argument.cpp
index cac5c95..d6454eb 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -502,9 +502,12 @@ void Argument::typeConstructor_() {
 }
 
 void Argument::defaultsConstructor_() {
+    // remove previous default arguments
+    clear();
+    argument_ = "";
+    default_ = "";
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
-- 
2.43.0


From 5d774cf21148b6a823e554da90822d47e3afd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 08/27] fix: parseArguments restores the defaults and drops
 values of a previous parse

---
 single_include/blet/args.h | 14 +++-----------
 src/args.cpp               |  1 +
 src/argument.cpp           | 13 ++-----------
 3 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 89aecaa..a3c96c8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2619,6 +2619,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -3794,21 +3795,12 @@ inline void Argument::defaultsConstructor_() {
 }
 
 inline void Argument::clear_() {
-    argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    // restore the default values
+    defaultsConstructor_();
 }
 
 } // namespace args
diff --git a/src/args.cpp b/src/args.cpp
index e9096cb..e69a76e 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
diff --git a/src/argument.cpp b/src/argument.cpp
index d6454eb..1c6e2cd 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -571,21 +571,12 @@ void Argument::defaultsConstructor_() {
 }
 
 void Argument::clear_() {
-    argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    // restore the default values
+    defaultsConstructor_();
 }
 
 } // namespace args
-- 
2.43.0


From 20ba2f31da898be1c8231814b6d19938a7fa5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 09/27] fix: store-false, help and version actions apply to an
 option without value

---
 single_include/blet/args.h | 8 ++++----
 src/argument.cpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index a3c96c8..c4f7fcc 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3665,10 +3665,6 @@ inline void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -3693,6 +3689,10 @@ inline void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
diff --git a/src/argument.cpp b/src/argument.cpp
index 1c6e2cd..5837e12 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -441,10 +441,6 @@ void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -469,6 +465,10 @@ void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
-- 
2.43.0


From 357b6633de4807be9f2bbeb618c6a244dd6a65f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/27] fix: nargs '+' on an infinite positional does not make
 groups of 43 values

---
 single_include/blet/args.h | 3 ++-
 src/argument.cpp           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c4f7fcc..ace166b 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3649,7 +3649,8 @@ inline void Argument::typeConstructor_() {
         if (nargs_ == 1 && action_ == Action::NONE) {
             type_ = Argument::POSITIONAL_ARGUMENT;
         }
-        else if ((nargs_ == '+' && action_ == Action::NONE) || (nargs_ == 1 && action_ == Action::INFINITE)) {
+        else if ((nargs_ == '+' && (action_ == Action::NONE || action_ == Action::INFINITE)) ||
+                 (nargs_ == 1 && action_ == Action::INFINITE)) {
             nargs_ = 1;
             action_ = Action::INFINITE;
             type_ = Argument::INFINITE_POSITIONAL_ARGUMENT;
diff --git a/src/argument.cpp b/src/argument.cpp
index 5837e12..46dd4d1 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -425,7 +425,8 @@ void Argument::typeConstructor_() {
         if (nargs_ == 1 && action_ == Action::NONE) {
             type_ = Argument::POSITIONAL_ARGUMENT;
         }
-        else if ((nargs_ == '+' && action_ == Action::NONE) || (nargs_ == 1 && action_ == Action::INFINITE)) {
+        else if ((nargs_ == '+' && (action_ == Action::NONE || action_ == Action::INFINITE)) ||
+                 (nargs_ == 1 && action_ == Action::INFINITE)) {
             nargs_ = 1;
             action_ = Action::INFINITE;
             type_ = Argument::INFINITE_POSITIONAL_ARGUMENT;
-- 
2.43.0


From ef55195ce0f6335e17ae04c1da4f5f66810ca7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 11/27] fix: a refused action, nargs or defaults call leaves
 the argument unchanged

---
 include/blet/args/argument.h |  9 +++----
 single_include/blet/args.h   | 47 +++++++++++++++++++++++++++---------
 src/argument.cpp             | 38 ++++++++++++++++++++++++-----
 3 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..6d0763a 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -512,9 +512,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        define_(action_, nargs__, defaults_);
         return *this;
     }
 
@@ -527,8 +525,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+        define_(action_, nargs_, defaults__);
         return *this;
     }
 
@@ -654,6 +651,8 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    void define_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ace166b..91a58e5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1063,9 +1063,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        define_(action_, nargs__, defaults_);
         return *this;
     }
 
@@ -1078,8 +1076,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+        define_(action_, nargs_, defaults__);
         return *this;
     }
 
@@ -1205,6 +1202,8 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    void define_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
@@ -3474,18 +3473,44 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
+    define_(action__, nargs_, defaults_);
+    return *this;
+}
+
+inline void Argument::define_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__) {
+    // save the current definition
+    const enum Action::eAction oldAction = action_;
+    const std::size_t oldNargs = nargs_;
+    const enum Type oldType = type_;
+    const std::vector<std::string> oldDefaults = defaults_;
+    Argument* const oldHelpOption = args_.helpOption_;
+    Argument* const oldVersionOption = args_.versionOption_;
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
-    return *this;
+    try {
+        action_ = action__;
+        nargs_ = nargs__;
+        defaults_ = std::vector<std::string>(defaults__);
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // restore the previous definition
+        action_ = oldAction;
+        nargs_ = oldNargs;
+        type_ = oldType;
+        defaults_ = oldDefaults;
+        args_.helpOption_ = oldHelpOption;
+        args_.versionOption_ = oldVersionOption;
+        defaultsConstructor_();
+        throw;
+    }
 }
 
 inline Argument& Argument::required(bool required__) {
diff --git a/src/argument.cpp b/src/argument.cpp
index 46dd4d1..809fafa 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -250,18 +250,44 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
+    define_(action__, nargs_, defaults_);
+    return *this;
+}
+
+void Argument::define_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__) {
+    // save the current definition
+    const enum Action::eAction oldAction = action_;
+    const std::size_t oldNargs = nargs_;
+    const enum Type oldType = type_;
+    const std::vector<std::string> oldDefaults = defaults_;
+    Argument* const oldHelpOption = args_.helpOption_;
+    Argument* const oldVersionOption = args_.versionOption_;
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
-    return *this;
+    try {
+        action_ = action__;
+        nargs_ = nargs__;
+        defaults_ = std::vector<std::string>(defaults__);
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // restore the previous definition
+        action_ = oldAction;
+        nargs_ = oldNargs;
+        type_ = oldType;
+        defaults_ = oldDefaults;
+        args_.helpOption_ = oldHelpOption;
+        args_.versionOption_ = oldVersionOption;
+        defaultsConstructor_();
+        throw;
+    }
 }
 
 Argument& Argument::required(bool required__) {
-- 
2.43.0


From f8472905f636784e78469064233f65c349b13c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 12/27] fix: dest() on the help or version option keeps it as
 such (dangling pointer)

---
 include/blet/args/argument.h |  8 +++++---
 single_include/blet/args.h   | 18 +++++++++++++++---
 src/argument.cpp             | 10 ++++++++++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 6d0763a..9f3a9d1 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -657,6 +657,8 @@ class Argument : public ArgumentElement {
 
     void defaultsConstructor_();
 
+    void replace_(const Argument* argument);
+
     void sortNameOrFlags_();
 
     void clear_();
@@ -691,8 +693,8 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        replace_(argument);
         delete argument;
-        *this_ = this;
     }
     virtual ~ArgumentType() {}
 
@@ -726,8 +728,8 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        replace_(argument);
         delete argument;
-        *this_ = this;
     }
     virtual ~ArgumentVectorType() {}
 
@@ -798,8 +800,8 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        replace_(argument);
         delete argument;
-        *this_ = this;
     }
     virtual ~ArgumentVectorVectorType() {}
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 91a58e5..6357505 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1208,6 +1208,8 @@ class Argument : public ArgumentElement {
 
     void defaultsConstructor_();
 
+    void replace_(const Argument* argument);
+
     void sortNameOrFlags_();
 
     void clear_();
@@ -1242,8 +1244,8 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        replace_(argument);
         delete argument;
-        *this_ = this;
     }
     inline virtual ~ArgumentType() {}
 
@@ -1277,8 +1279,8 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        replace_(argument);
         delete argument;
-        *this_ = this;
     }
     inline virtual ~ArgumentVectorType() {}
 
@@ -1349,8 +1351,8 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
+        replace_(argument);
         delete argument;
-        *this_ = this;
     }
     inline virtual ~ArgumentVectorVectorType() {}
 
@@ -3519,6 +3521,16 @@ inline Argument& Argument::required(bool required__) {
     return *this;
 }
 
+inline void Argument::replace_(const Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    *this_ = this;
+}
+
 inline void Argument::sortNameOrFlags_() {
     std::sort(nameOrFlags_.begin(), nameOrFlags_.end(), &compareFlag);
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index 809fafa..a3b71e1 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -296,6 +296,16 @@ Argument& Argument::required(bool required__) {
     return *this;
 }
 
+void Argument::replace_(const Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    *this_ = this;
+}
+
 void Argument::sortNameOrFlags_() {
     std::sort(nameOrFlags_.begin(), nameOrFlags_.end(), &compareFlag);
 }
-- 
2.43.0


From ff3a85c6e1a824f27e1158cc271a313b251ecb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 13/27] fix: an empty list adds no phantom element to a vector
 destination

---
 include/blet/args/argument.h | 25 +++++++++++++++++++++----
 single_include/blet/args.h   | 25 +++++++++++++++++++++----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 9f3a9d1..09d32b6 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -643,6 +643,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    bool isList_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     virtual void toDest_() {
         /* do nothing */
     }
@@ -749,7 +766,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -771,7 +788,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -823,7 +840,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isList_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -849,7 +866,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 6357505..cb077d2 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1194,6 +1194,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    bool isList_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     inline virtual void toDest_() {
         /* do nothing */
     }
@@ -1300,7 +1317,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -1322,7 +1339,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -1374,7 +1391,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isList_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -1400,7 +1417,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
-- 
2.43.0


From c7e50d0ed1b79d80968f331c751f87559c37a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 14/27] fix: const char* elements of a vector destination point
 to the stored value

---
 include/blet/args/argument.h | 4 ++--
 single_include/blet/args.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 09d32b6..5eea1ba 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -253,9 +253,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    std::string getString() const {
+    const std::string& getString() const {
         return argument_;
     }
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index cb077d2..bb7c3a9 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -804,9 +804,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    inline std::string getString() const {
+    const std::string& getString() const {
         return argument_;
     }
 
-- 
2.43.0


From e4d995198bb016d6398dac60a5e38548dc46df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 15/27] fix: a missing positional list is reported as an
 argument, not as an option

---
 single_include/blet/args.h | 2 +-
 src/args.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bb7c3a9..37c9c60 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2707,7 +2707,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
diff --git a/src/args.cpp b/src/args.cpp
index e69a76e..ed81e3e 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -135,7 +135,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
-- 
2.43.0


From 52968882aaf6edc33ecbb30cb51dadb597f4a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 16/27] fix: ValidNumber refuses an empty text

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 37c9c60..35273c3 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4376,7 +4376,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..e1e70af 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From 748c47df4f4b059df05e9892900738c44059dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 17/27] fix: a copy of an argument does not own its validator
 (double delete)

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 35273c3..0919ec9 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3374,7 +3374,7 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator is owned by the original
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
diff --git a/src/argument.cpp b/src/argument.cpp
index a3b71e1..3a91a0d 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -132,7 +132,7 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator is owned by the original
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
-- 
2.43.0


From 82f310fb231f1052aab0aab607780d5e791bfbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 18/27] fix: parseArguments accepts an empty argv (null argv[0]
 dereferenced)

---
 single_include/blet/args.h | 2 +-
 src/args.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 0919ec9..b8e8915 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2656,7 +2656,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0 && argv[0] != NULL) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
diff --git a/src/args.cpp b/src/args.cpp
index ed81e3e..030e8fd 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -84,7 +84,7 @@ void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0 && argv[0] != NULL) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
-- 
2.43.0


From 6b23c7fbdf60679cc9a5075bf6352f999bd1c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 19/27] fix: a program named '--' does not end the options of
 its command line

---
 include/blet/args/utils.h  | 2 +-
 single_include/blet/args.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..3d57969 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b8e8915..8c788ec 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2557,7 +2557,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
-- 
2.43.0


From 652eeda5cebecb035d815fccdfd057bcfc0246e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 20/27] fix: integer destinations keep all digits of large
 integers

---
 include/blet/args/argument.h | 28 ++++++++++++++++++++++++----
 single_include/blet/args.h   | 28 ++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 5eea1ba..493a001 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -183,22 +183,42 @@ inline void strTo(const std::string& str, unsigned int& ret) {
 }
 
 inline void strTo(const std::string& str, long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtol(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 inline void strTo(const std::string& str, unsigned long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtoul(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 #if __cplusplus >= 201103L
 #ifdef _GLIBCXX_USE_LONG_LONG
 
 inline void strTo(const std::string& str, long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtoll(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 inline void strTo(const std::string& str, unsigned long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtoull(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 #endif
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 8c788ec..fac4890 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -734,22 +734,42 @@ inline void strTo(const std::string& str, unsigned int& ret) {
 }
 
 inline void strTo(const std::string& str, long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtol(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 inline void strTo(const std::string& str, unsigned long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtoul(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 #if __cplusplus >= 201103L
 #ifdef _GLIBCXX_USE_LONG_LONG
 
 inline void strTo(const std::string& str, long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtoll(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 inline void strTo(const std::string& str, unsigned long long& ret) {
-    ret = ::strtod(str.c_str(), NULL);
+    char* endPtr = NULL;
+    ret = ::strtoull(str.c_str(), &endPtr, 10);
+    // is not only an integer
+    if (endPtr[0] != '\0') {
+        ret = ::strtod(str.c_str(), NULL);
+    }
 }
 
 #endif
-- 
2.43.0


From a31e8a927ec91bab03e5dc7609212f998e73467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 21/27] fix: long double destinations keep their precision

---
 include/blet/args/argument.h | 4 ++++
 single_include/blet/args.h   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 493a001..7630d1e 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -233,7 +233,11 @@ inline void strTo(const std::string& str, double& ret) {
 }
 
 inline void strTo(const std::string& str, long double& ret) {
+#if __cplusplus >= 201103L
+    ret = ::strtold(str.c_str(), NULL);
+#else
     ret = ::strtod(str.c_str(), NULL);
+#endif
 }
 
 inline void strTo(const std::string& str, std::string& ret) {
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index fac4890..af75749 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -784,7 +784,11 @@ inline void strTo(const std::string& str, double& ret) {
 }
 
 inline void strTo(const std::string& str, long double& ret) {
+#if __cplusplus >= 201103L
+    ret = ::strtold(str.c_str(), NULL);
+#else
     ret = ::strtod(str.c_str(), NULL);
+#endif
 }
 
 inline void strTo(const std::string& str, std::string& ret) {
-- 
2.43.0


From 35ed2c85e56b3c4185b5e11457c025f1ecb358c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 22/27] fix: help and version options can stand anywhere in a
 cluster

---
 single_include/blet/args.h | 4 +++-
 src/args.cpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index af75749..1f5f881 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2971,7 +2971,9 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
             return;
         }
         else if ((*(it->second))->type_ != Argument::BOOLEAN_OPTION &&
-                 (*(it->second))->type_ != Argument::REVERSE_BOOLEAN_OPTION) {
+                 (*(it->second))->type_ != Argument::REVERSE_BOOLEAN_OPTION &&
+                 (*(it->second))->type_ != Argument::HELP_OPTION &&
+                 (*(it->second))->type_ != Argument::VERSION_OPTION) {
             throw ParseArgumentException(charOption.c_str(), "only last option can be use a parameter");
         }
         (*(it->second))->isExist_ = true;
diff --git a/src/args.cpp b/src/args.cpp
index 030e8fd..9c0f847 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -375,7 +375,9 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
             return;
         }
         else if ((*(it->second))->type_ != Argument::BOOLEAN_OPTION &&
-                 (*(it->second))->type_ != Argument::REVERSE_BOOLEAN_OPTION) {
+                 (*(it->second))->type_ != Argument::REVERSE_BOOLEAN_OPTION &&
+                 (*(it->second))->type_ != Argument::HELP_OPTION &&
+                 (*(it->second))->type_ != Argument::VERSION_OPTION) {
             throw ParseArgumentException(charOption.c_str(), "only last option can be use a parameter");
         }
         (*(it->second))->isExist_ = true;
-- 
2.43.0


From a22b284ae9b2d9d90e53f0d766ee6d1c9cc57447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 23/27] fix: a value glued to a short option can contain '='

---
 single_include/blet/args.h | 15 ++++++++-------
 src/args.cpp               | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1f5f881..2d6afc0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2959,14 +2959,15 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
         if (it == argumentFromName_.end()) {
             throw ParseArgumentException(charOption.c_str(), "invalid option");
         }
-        else if (!hasArg && ((*(it->second))->type_ == Argument::SIMPLE_OPTION ||
-                             (*(it->second))->type_ == Argument::NUMBER_OPTION ||
-                             (*(it->second))->type_ == Argument::INFINITE_OPTION ||
-                             (*(it->second))->type_ == Argument::MULTI_OPTION ||
-                             (*(it->second))->type_ == Argument::MULTI_INFINITE_OPTION ||
-                             (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
+        else if ((*(it->second))->type_ == Argument::SIMPLE_OPTION ||
+                 (*(it->second))->type_ == Argument::NUMBER_OPTION ||
+                 (*(it->second))->type_ == Argument::INFINITE_OPTION ||
+                 (*(it->second))->type_ == Argument::MULTI_OPTION ||
+                 (*(it->second))->type_ == Argument::MULTI_INFINITE_OPTION ||
+                 (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION) {
+            // all the rest of the token is the value, '=' included
             hasArg = true;
-            arg = options.substr(i + 1, options.size() - i);
+            arg = argv[*index] + i + 1;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index 9c0f847..167b913 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -363,14 +363,15 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
         if (it == argumentFromName_.end()) {
             throw ParseArgumentException(charOption.c_str(), "invalid option");
         }
-        else if (!hasArg && ((*(it->second))->type_ == Argument::SIMPLE_OPTION ||
-                             (*(it->second))->type_ == Argument::NUMBER_OPTION ||
-                             (*(it->second))->type_ == Argument::INFINITE_OPTION ||
-                             (*(it->second))->type_ == Argument::MULTI_OPTION ||
-                             (*(it->second))->type_ == Argument::MULTI_INFINITE_OPTION ||
-                             (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
+        else if ((*(it->second))->type_ == Argument::SIMPLE_OPTION ||
+                 (*(it->second))->type_ == Argument::NUMBER_OPTION ||
+                 (*(it->second))->type_ == Argument::INFINITE_OPTION ||
+                 (*(it->second))->type_ == Argument::MULTI_OPTION ||
+                 (*(it->second))->type_ == Argument::MULTI_INFINITE_OPTION ||
+                 (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION) {
+            // all the rest of the token is the value, '=' included
             hasArg = true;
-            arg = options.substr(i + 1, options.size() - i);
+            arg = argv[*index] + i + 1;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From ec1f4b35c562ac4fcdd0f13aa5b84e8e13439a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 24/27] fix: any token starting with a registered short option
 ends an unbounded list

---
 single_include/blet/args.h | 26 +++-----------------------
 src/args.cpp               | 26 +++-----------------------
 2 files changed, 6 insertions(+), 46 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 2d6afc0..f0632d2 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3143,35 +3143,15 @@ inline bool Args::endOfInfiniteArgument_(const char* argument) {
     std::string arg;
     std::map<std::string, Argument**>::iterator it;
     if (isShortOption(argument)) {
-        bool hasArg = takeArg(argument, &option, &arg);
+        takeArg(argument, &option, &arg);
         if (isAlternative_) {
             it = argumentFromName_.find("-" + option);
             if (it != argumentFromName_.end()) {
                 return true;
             }
         }
-        // get firsts option
-        for (std::size_t i = 1; i < option.size() - 1; ++i) {
-            std::string charOption(option, i, 1);
-            it = argumentFromName_.find("-" + charOption);
-            if (it == argumentFromName_.end()) {
-                return false;
-            }
-            else if (!hasArg && ((*(it->second))->type_ == Argument::SIMPLE_OPTION ||
-                                 (*(it->second))->type_ == Argument::NUMBER_OPTION ||
-                                 (*(it->second))->type_ == Argument::INFINITE_OPTION ||
-                                 (*(it->second))->type_ == Argument::MULTI_OPTION ||
-                                 (*(it->second))->type_ == Argument::MULTI_INFINITE_OPTION ||
-                                 (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
-                return true;
-            }
-            else if ((*(it->second))->type_ == Argument::BOOLEAN_OPTION ||
-                     (*(it->second))->type_ == Argument::REVERSE_BOOLEAN_OPTION) {
-                return true;
-            }
-        }
-        // get last option
-        std::string charOption(option, option.size() - 1, 1);
+        // get first option
+        std::string charOption(option, 1, 1);
         it = argumentFromName_.find("-" + charOption);
     }
     else if (isLongOption(argument)) {
diff --git a/src/args.cpp b/src/args.cpp
index 167b913..ffd8092 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -547,35 +547,15 @@ bool Args::endOfInfiniteArgument_(const char* argument) {
     std::string arg;
     std::map<std::string, Argument**>::iterator it;
     if (isShortOption(argument)) {
-        bool hasArg = takeArg(argument, &option, &arg);
+        takeArg(argument, &option, &arg);
         if (isAlternative_) {
             it = argumentFromName_.find("-" + option);
             if (it != argumentFromName_.end()) {
                 return true;
             }
         }
-        // get firsts option
-        for (std::size_t i = 1; i < option.size() - 1; ++i) {
-            std::string charOption(option, i, 1);
-            it = argumentFromName_.find("-" + charOption);
-            if (it == argumentFromName_.end()) {
-                return false;
-            }
-            else if (!hasArg && ((*(it->second))->type_ == Argument::SIMPLE_OPTION ||
-                                 (*(it->second))->type_ == Argument::NUMBER_OPTION ||
-                                 (*(it->second))->type_ == Argument::INFINITE_OPTION ||
-                                 (*(it->second))->type_ == Argument::MULTI_OPTION ||
-                                 (*(it->second))->type_ == Argument::MULTI_INFINITE_OPTION ||
-                                 (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
-                return true;
-            }
-            else if ((*(it->second))->type_ == Argument::BOOLEAN_OPTION ||
-                     (*(it->second))->type_ == Argument::REVERSE_BOOLEAN_OPTION) {
-                return true;
-            }
-        }
-        // get last option
-        std::string charOption(option, option.size() - 1, 1);
+        // get first option
+        std::string charOption(option, 1, 1);
         it = argumentFromName_.find("-" + charOption);
     }
     else if (isLongOption(argument)) {
-- 
2.43.0


From a5b9cdce0da43a942fb0b901bb8c740b89150053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 25/27] fix: positionals keep their definition order when
 required() is called later

---
 include/blet/args/args.h     |  1 +
 include/blet/args/argument.h |  1 +
 single_include/blet/args.h   | 10 ++++++++--
 src/args.cpp                 |  2 ++
 src/argument.cpp             |  6 ++++--
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/args.h b/include/blet/args/args.h
index 1c0d5ec..89799e3 100644
--- a/include/blet/args/args.h
+++ b/include/blet/args/args.h
@@ -334,6 +334,7 @@ class Args : public Usage {
 
     std::string binaryName_;
 
+    std::size_t argumentIndex_;
     std::list<Argument*> arguments_;
     std::map<std::string, Argument**> argumentFromName_;
 
diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 7630d1e..79ea929 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -723,6 +723,7 @@ class Argument : public ArgumentElement {
     bool validDeletable_;
 
     Argument** this_;
+    std::size_t index_;
     enum Action::eAction action_;
     std::vector<std::string> defaults_;
 };
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index f0632d2..4fa4442 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1274,6 +1274,7 @@ class Argument : public ArgumentElement {
     bool validDeletable_;
 
     Argument** this_;
+    std::size_t index_;
     enum Action::eAction action_;
     std::vector<std::string> defaults_;
 };
@@ -1927,6 +1928,7 @@ class Args : public Usage {
 
     std::string binaryName_;
 
+    std::size_t argumentIndex_;
     std::list<Argument*> arguments_;
     std::map<std::string, Argument**> argumentFromName_;
 
@@ -2639,6 +2641,7 @@ namespace args {
 inline Args::Args() :
     Usage(*this),
     binaryName_(),
+    argumentIndex_(0),
     arguments_(),
     argumentFromName_(),
     helpOption_(NULL),
@@ -2849,6 +2852,7 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
         argument->sortNameOrFlags_();
     }
 
+    argument->index_ = argumentIndex_++;
     arguments_.push_back(argument);
     Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
@@ -3366,6 +3370,7 @@ inline Argument::Argument(Args& args) :
     valid_(NULL),
     validDeletable_(true),
     this_(NULL),
+    index_(0),
     action_(Action::NONE),
     defaults_() {}
 
@@ -3383,6 +3388,7 @@ inline Argument::Argument(const Argument& rhs) :
     valid_(rhs.valid_),
     validDeletable_(false), // the validator is owned by the original
     this_(rhs.this_),
+    index_(rhs.index_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
 
@@ -3577,7 +3583,7 @@ inline void Argument::validFormatFlag_(const char* flag) {
 inline bool Argument::compareOption_(const Argument* first, const Argument* second) {
     if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_() &&
         second->isRequired_) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_()) {
         return true;
@@ -3586,7 +3592,7 @@ inline bool Argument::compareOption_(const Argument* first, const Argument* seco
         return false;
     }
     else if (first->isPositionnalArgument_() && second->isPositionnalArgument_()) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_()) {
         return false;
diff --git a/src/args.cpp b/src/args.cpp
index ffd8092..2e53def 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -43,6 +43,7 @@ namespace args {
 Args::Args() :
     Usage(*this),
     binaryName_(),
+    argumentIndex_(0),
     arguments_(),
     argumentFromName_(),
     helpOption_(NULL),
@@ -253,6 +254,7 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
         argument->sortNameOrFlags_();
     }
 
+    argument->index_ = argumentIndex_++;
     arguments_.push_back(argument);
     Argument** addrNewArgument = &(arguments_.back());
     argument->this_ = addrNewArgument;
diff --git a/src/argument.cpp b/src/argument.cpp
index 3a91a0d..423a003 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -117,6 +117,7 @@ Argument::Argument(Args& args) :
     valid_(NULL),
     validDeletable_(true),
     this_(NULL),
+    index_(0),
     action_(Action::NONE),
     defaults_() {}
 
@@ -134,6 +135,7 @@ Argument::Argument(const Argument& rhs) :
     valid_(rhs.valid_),
     validDeletable_(false), // the validator is owned by the original
     this_(rhs.this_),
+    index_(rhs.index_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
 
@@ -328,7 +330,7 @@ void Argument::validFormatFlag_(const char* flag) {
 bool Argument::compareOption_(const Argument* first, const Argument* second) {
     if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_() &&
         second->isRequired_) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_() && first->isRequired_ && second->isPositionnalArgument_()) {
         return true;
@@ -337,7 +339,7 @@ bool Argument::compareOption_(const Argument* first, const Argument* second) {
         return false;
     }
     else if (first->isPositionnalArgument_() && second->isPositionnalArgument_()) {
-        return false;
+        return first->index_ < second->index_;
     }
     else if (first->isPositionnalArgument_()) {
         return false;
-- 
2.43.0


From 2692fffcd98292800a704b584a781afd807c06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 26/27] fix: count the remaining tokens without overflow for a
 large nargs

---
 single_include/blet/args.h | 10 +++++-----
 src/args.cpp               | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 4fa4442..65ce479 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3050,7 +3050,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -3101,7 +3101,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -3121,7 +3121,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -3187,7 +3187,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
@@ -3212,7 +3212,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
diff --git a/src/args.cpp b/src/args.cpp
index 2e53def..add3002 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -452,7 +452,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -503,7 +503,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -523,7 +523,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -589,7 +589,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
@@ -614,7 +614,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
-- 
2.43.0


From 98210f4dad49bec014341ddd372ce7fd7354c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:11 +0000
Subject: [PATCH 27/27] fix: keep a validator that is set again

---
 include/blet/args/argument.h | 2 +-
 single_include/blet/args.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 79ea929..9bdaef9 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -561,7 +561,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 65ce479..e1d0e9f 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1112,7 +1112,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     inline Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
-- 
2.43.0

