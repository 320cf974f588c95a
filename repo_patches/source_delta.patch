From d2caa2b1574f1f11dd730f19f9911fc375d6f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 01/25] fix: KDTree::removeElement updates the size and cache,
 and compiles for binary trees

Removing an element from a packed tree left KDTree::size() and the divisor
cache as they were, so the tree kept counting and could return the removed
element. For binary trees the method did not compile.
---
 src/mathic/BinaryKDTree.h | 12 +++++++++---
 src/mathic/KDTree.h       |  5 ++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..5e0a01c 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -123,7 +123,12 @@ namespace mathic {
       }
 
       Node& getChildFor(const ExtEntry& entry, const C& conf) {
-        if (getExponent() < conf.getExponent(entry.get(), getVar()))
+        return getChildFor(entry.get(), conf);
+      }
+
+      template<class ME> // ME is MonomialOrEntry
+      Node& getChildFor(const ME& me, const C& conf) {
+        if (getExponent() < conf.getExponent(me, getVar()))
           return getStrictlyGreater();
         else
           return getEqualOrLess();
@@ -292,8 +297,9 @@ namespace mathic {
     Node* node = _root;
 
     while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+      node = &node->asInterior().getChildFor(monomial, _conf);
+    const bool value =
+      node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..3bdfd97 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -172,7 +172,10 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      if (!_tree.removeElement(monomial))
+        return false;
+      reportChanges(0, 1);
+      return true;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From 04089845471620e971b5cbf2c6cfae7c383a407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 02/25] fix: KDTree::insert of a range compiles and inserts
 every entry

---
 src/mathic/KDTree.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 3bdfd97..5ed331f 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -154,16 +154,12 @@ namespace mathic {
     void insert(Iter begin, Iter end) {
       if (begin == end)
         return;
-      const size_t inserted = std::distance(begin, end); 
-      if (!empty()) {
-        for (; begin != end; ++begin)
-          _tree.insert(*begin);
-      } else {
-        _tree.insert(begin, end);
-        // insert into empty container is equivalent to rebuild
-        resetNumberOfChangesTillRebuild();
-      }
-      reportChanges(inserted, 0);
+      const bool wasEmpty = empty();
+      for (; begin != end; ++begin)
+        insert(*begin);
+      // insert into empty container is equivalent to rebuild
+      if (wasEmpty)
+        rebuild();
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
-- 
2.43.0


From 1019105fe1af660a775eeab918d4b8c579970573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 03/25] fix: KDTree::clear compiles and resets the size

---
 src/mathic/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 5ed331f..6b5f9e9 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -235,8 +235,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
+      _divMaskCalculator.rebuildDefault(getConfiguration());
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From d1084a669acd937bc66adef1805fa5e57ae31f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 04/25] fix: moving a heap moves the elements of the source
 heap

The move constructor of Heap moved its own tree into itself and the move
constructor of ComTree emptied the new tree instead of the source.
---
 src/mathic/ComTree.h | 4 ++--
 src/mathic/Heap.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From 126bad17036354e6f7f4bd5cb6189039832c869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 05/25] fix: clearing a geobucket that tracks its front resets
 the front tokens

The buckets kept their positions in the cleared front, and those stale
positions were swapped into and written through by later insertions.
---
 src/mathic/GeoFront.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/GeoFront.h b/src/mathic/GeoFront.h
index 62f895f..dfe2224 100755
--- a/src/mathic/GeoFront.h
+++ b/src/mathic/GeoFront.h
@@ -184,6 +184,8 @@ namespace mathic {
 
   template<class C, class B>
   void GeoFront<C, B, true>::clear() {
+    for (B** bucket = begin(); bucket != end(); ++bucket)
+      (*bucket)->setFrontToken(0);
     _bucketEnd = _bucketBegin;
   }
 
-- 
2.43.0


From b7a45c4a27c6a128131822444ccdce8b17789259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 06/25] fix: pushing an empty range onto a geobucket does
 nothing

The empty range was inserted as if it had an element, which put an empty
bucket into the front or merged nothing into the next bucket.
---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..456a49a 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -401,6 +401,8 @@ namespace mathic {
   template<class C>
 	template<class It>
 	void Geobucket<C>::push(It begin, It end) {
+	if (begin == end)
+	  return; // an empty bucket must not be put into the front
 #ifdef MATHIC_DEBUG
 	if (begin != end) {
 	  for (It it = begin; it + 1 != end; ++it) {
-- 
2.43.0


From 4f69c4e87bb659fc833658ee5aac1523f4048bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 07/25] fix: moving an StlSet does not keep using the source's
 configuration

The comparison of the implicitly moved set pointed to the configuration
of the source, which is dangling once the source is destroyed.
---
 src/mathic/StlSet.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathic/StlSet.h b/src/mathic/StlSet.h
index 9f1609f..30e4abc 100755
--- a/src/mathic/StlSet.h
+++ b/src/mathic/StlSet.h
@@ -15,6 +15,11 @@ namespace mathic {
 
   StlSet(const Configuration& configuration):
     _conf(configuration), _set(Cmp(&_conf)) {}
+  StlSet(StlSet&& set):
+    _conf(std::move(set._conf)),
+    _set(set._set.begin(), set._set.end(), Cmp(&_conf)) {
+    set._set.clear();
+  }
 	Configuration& getConfiguration() {return _conf;}
 	const Configuration& getConfiguration() const {return _conf;}
 
-- 
2.43.0


From e4a4582ca172c041e7b2e1641ee8251da3983a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 08/25] fix: PairQueue destructs pair data using the row that
 the data is for

When the remaining rows of a column were retired, the data was destructed
as if it belonged to the last, retired, row.
---
 src/mathic/PairQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..3c24231 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -467,12 +467,13 @@ namespace mathic {
   template<class C>
   void PairQueue<C>::Column::incrementRowIndex(PairQueue<C>& pq) {
 	MATHIC_ASSERT(!empty());
+	Index const oldRow = rowIndex(); // mPairData holds data for this row
 	if (big()) {
 	  do {
 		++bigBegin;
 		if (bigBegin == bigEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(bigBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*bigBegin));
@@ -481,7 +482,7 @@ namespace mathic {
 		++smallBegin;
 		if (smallBegin == smallEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(smallBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*smallBegin));
-- 
2.43.0


From 5ae63cd4fa7565fba8fb7a44d2f133edee418b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 09/25] fix: constructPairData destroys the pair data if
 computing it throws

---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 3c24231..ca91535 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -80,7 +80,12 @@ namespace mathic {
 		MATHIC_ASSERT(memory != 0);
 		MATHIC_ASSERT(col > row);
 		PairData* pd = new (memory) PairData();
-		conf.computePairData(col, row, *pd);
+		try {
+		  conf.computePairData(col, row, *pd);
+		} catch (...) {
+		  pd->~PairData();
+		  throw;
+		}
 	  }
 	};
 	template<class Configuration>
-- 
2.43.0


From 3a0813504a10bfbbe549b28469a9bce6e893846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 10/25] fix: HashTable::remove compiles

It used names that do not exist in the configuration and in Handle and
required a default constructor that Handle does not have.
---
 src/mathic/HashTable.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..21698a5 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -238,17 +238,13 @@ namespace mathic {
   void HashTable<C>::remove(Handle *& p) 
   {
     mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    for (Handle** q = &mHashTable[hashval]; *q != 0; q = &(*q)->next)
       {
-	if (q->next == p) 
+	if (*q == p)
 	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
+	    *q = p->next;
+	    if (mHashTable[hashval] == 0) mBinCount--;
 	    //TODO: call destructor for pair, then call 'free' with the mNodePool
 	    return;
 	  }
-- 
2.43.0


From 5f514fdc1cb8658ed5103c6004ef5325d54e785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 11/25] fix: define HashTable::hardReset, which was declared
 but missing

---
 src/mathic/HashTable.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 21698a5..c04925c 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -163,6 +163,14 @@ namespace mathic {
     mNodePool.freeAllBuffers();
   }
 
+  template<class C>
+  void HashTable<C>::hardReset() {
+    std::vector<Handle *>(mTableSize).swap(mHashTable);
+    mNodeCount = 0;
+    mBinCount = 0;
+    mNodePool.freeAllBuffers();
+  }
+
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
-- 
2.43.0


From 83f7916811b9c4ef4bf25f368efb94dc25574343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:00 +0000
Subject: [PATCH 12/25] fix: define CliParser::registerHelpAction, which was
 declared but missing

---
 src/mathic/CliParser.cpp | 204 ++++++++++++++++++++-------------------
 1 file changed, 107 insertions(+), 97 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index e45b457..3633cd3 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,97 +1,107 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    registerAction<HelpAction>();
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From 0555de15e9754d15a6067d1161582b53c2148713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 13/25] fix: withSIPrefix and bytesInUnit stay within the table
 of units for large values

---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..053d4ac 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -242,7 +242,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is at 999.5 because that value will get
       // rounded to 1000.0.
-	  for (i = 0; i < unitCount && amount >= 999.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 999.95; ++i)
         amount /= 1000.0;
 	  out << oneDecimal(amount) << units[i];
     }
@@ -260,7 +260,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is 1023.95 because that value will get
       // rounded to 1024.0.
-	  for (i = 0; i < unitCount && amount >= 1023.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 1023.95; ++i)
         amount /= 1024.0;
 	  out << oneDecimal(amount) << units[i];
     }
-- 
2.43.0


From 6d7923e8634a10524e30cbb31928a8661d57cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:15 +0000
Subject: [PATCH 14/25] fix: percentInteger does not overflow for large
 numerators

---
 src/mathic/ColumnPrinter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index 053d4ac..ced0c71 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -174,7 +174,10 @@ namespace mathic {
     const unsigned long long numerator,
     const unsigned long long denominator
   ) {
-    return ratioInteger(numerator * 100, denominator) + '%';
+    if (denominator == 0)
+      return ratioInteger(numerator, denominator) + '%';
+    // multiply as double since numerator * 100 could overflow.
+    return oneDecimal(static_cast<double>(numerator) * 100 / denominator) + '%';
   }
 
   std::string ColumnPrinter::percentDouble(
-- 
2.43.0


From 9487a9411f490ec72a25ff1169af5dff473d6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:15 +0000
Subject: [PATCH 15/25] fix: oneDecimal does not overflow for large values

---
 src/mathic/ColumnPrinter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index ced0c71..c3b7902 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -1,5 +1,7 @@
 #include "ColumnPrinter.h"
 
+#include <iomanip>
+
 namespace mathic {
   namespace {
 	size_t getLineWidth(const std::string& str, size_t pos) {
@@ -229,6 +231,11 @@ namespace mathic {
 
   std::string ColumnPrinter::oneDecimal(const double d) {
     std::ostringstream out;
+    // From 2^53 on a double is always an integer, and d * 10 might not fit in l.
+    if (d >= 9007199254740992.0) {
+      out << std::fixed << std::setprecision(1) << d;
+      return out.str();
+    }
     unsigned long long l = static_cast<unsigned long long>(d * 10 + 0.5);
     out << l / 10 << '.' << l % 10;
 	return out.str();
-- 
2.43.0


From 5450bb6c43aa303d2c7acba160e0e4268efab01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:24 +0000
Subject: [PATCH 16/25] fix: TourTree::push leaves the tree unchanged when the
 comparison throws

PairQueue::addColumnDescending destructs the column and frees its memory
when the push throws, but the tree still pointed to that column.
---
 src/mathic/TourTree.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 2eeedaa..1992d41 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -115,30 +115,33 @@ namespace mathic {
 	  MATHIC_SLOW_ASSERT(isValid());
 	  return;
 	}
+	// find the highest node that entry wins before changing anything, so
+	// that nothing has changed if the comparison throws.
+	const Node oldLeaf = _tree.lastLeaf().next().parent();
+	Node win = oldLeaf.right(); // the leaf of entry
+	while (!win.isRoot()) {
+	  typename C::CompareResult cmp = _conf.compare
+		(_tree[win.parent()]->entry, entry);
+	  if (!_conf.cmpLessThan(cmp))
+		break;
+	  win = win.parent();
+	}
+	_players.push_back(Player(entry, oldLeaf.right()));
+
 	// move leaf down as left child
-	Node posParent = _tree.lastLeaf().next().parent();
-	Player* moveDown = _tree[posParent];
+	Player* moveDown = _tree[oldLeaf];
 	_tree.pushBackWithCapacity(moveDown);
 	moveDown->leaf = _tree.lastLeaf();
 	MATHIC_ASSERT(_tree.lastLeaf().isLeft());
 
 	// insert entry as right child
-	_players.push_back(Player(entry, _tree.lastLeaf().next()));
 	_tree.pushBackWithCapacity(&_players.back());
 	MATHIC_ASSERT(_tree.lastLeaf().isRight());
 
-	Node pos = _tree.lastLeaf();
-	do {
-	  MATHIC_ASSERT(!pos.isRoot());
-	  MATHIC_ASSERT(posParent == pos.parent());
-	  typename C::CompareResult cmp = _conf.compare
-		(_tree[posParent]->entry, _tree[pos]->entry);
-	  if (!_conf.cmpLessThan(cmp))
-		break;
-	  _tree[posParent] = _tree[pos];
-	  pos = posParent;
-	  posParent = pos.parent();
-	} while (!pos.isRoot());
+	for (Node pos = _tree.lastLeaf(); pos != win;) {
+	  pos = pos.parent();
+	  _tree[pos] = &_players.back();
+	}
 	MATHIC_SLOW_ASSERT(isValid());
   }
 
-- 
2.43.0


From b80e28cb2b279e97c4257f637fd382f5253fd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:59 +0000
Subject: [PATCH 17/25] fix: CliParser.cpp keeps the line endings it had

---
 src/mathic/CliParser.cpp | 214 +++++++++++++++++++--------------------
 1 file changed, 107 insertions(+), 107 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index 3633cd3..49d6802 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,107 +1,107 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-#include "HelpAction.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::registerHelpAction(
-    const std::string& preMessage,
-    const std::string& postMessage
-  ) {
-    registerAction<HelpAction>();
-    _helpPreMessage = preMessage;
-    _helpPostMessage = postMessage;
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    registerAction<HelpAction>();
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From 8ed2b191f865bc736bb4c8229e83de691a5f1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 18/25] fix: ComTree::pushBack accepts an element of the tree
 itself

---
 src/mathic/ComTree.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 2eea009..2939445 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -200,10 +200,12 @@ namespace mathic {
 
   template<class E, bool FI>
   void ComTree<E, FI>::pushBack(const E& value) {
-    if (_lastLeaf == _capacityEnd)
+    if (_lastLeaf == _capacityEnd) {
+      const E copy(value); // value may be an element of this tree
       increaseCapacity();
-    _lastLeaf = _lastLeaf.next();
-    (*this)[lastLeaf()] = value;
+      pushBackWithCapacity(copy);
+    } else
+      pushBackWithCapacity(value);
   }
 
   template<class E, bool FI>
-- 
2.43.0


From 62f157bfd65658fa1550e06dbf26d7eb5ca816e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:50 +0000
Subject: [PATCH 19/25] fix: dupSpans does not divide by zero for runs of one
 element

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 8ff8c10..5497312 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -159,7 +159,7 @@ void Simulator::dupSpans
 
     if (doPush) {
       const size_t size =
-        avgSpan - spanDeviation + rand() % (2 * spanDeviation);
+        avgSpan - spanDeviation + rand() % (2 * spanDeviation + 1);
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
         if (!sim.noLive() &&
-- 
2.43.0


From aa7aecf5614c953a098b59f1d2dd492f9fcbb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:50 +0000
Subject: [PATCH 20/25] fix: randomSpans pops all duplicates of a value at
 once, as the queues do

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 5497312..90ef9fa 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -223,7 +223,7 @@ void Simulator::orderSpans
 }
 
 void Simulator::randomSpans(size_t spanCount, size_t spanSize, size_t initialSize) {
-  SimBuilder sim(false, _mem, _events);
+  SimBuilder sim(true, _mem, _events);
   while (sim.getLiveCount() || sim.getPushCount() < spanCount) {
     bool doPop = rand() % (spanSize + 1) != 0;
     if (sim.getLiveCount() == 0)
-- 
2.43.0


From fbc8217fb68e193e72e444cbea1c42f089b1b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:50 +0000
Subject: [PATCH 21/25] fix: dupSpans stops pushing when the goal has been
 passed

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 90ef9fa..587d493 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -152,7 +152,7 @@ void Simulator::dupSpans
 
   while (sim.getPushSum() < pushSumGoal || !sim.noLive()) {
     bool doPush = (sim.getAvgLiveCount() < avgLiveGoal);
-    if (sim.getPushSum() == pushSumGoal)
+    if (sim.getPushSum() >= pushSumGoal)
       doPush = false;
     else if (sim.noLive())
       doPush = true;
-- 
2.43.0


From 98cb34fc0842de8a5808814b91addb8a114fd771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:50 +0000
Subject: [PATCH 22/25] fix: dupSpans makes no duplicates for a percentage of
 zero

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 587d493..2ce8e38 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -163,7 +163,7 @@ void Simulator::dupSpans
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
         if (!sim.noLive() &&
-          static_cast<size_t>(rand() % 100) <= dupPercentage) {
+          static_cast<size_t>(rand() % 100) < dupPercentage) {
           Value v;
           size_t tries = 0;
           // if there are only fewer elements to duplicate than there
-- 
2.43.0


From efa8b563058a7a6b6f7f16b2641cb6915a5aba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:50 +0000
Subject: [PATCH 23/25] fix: describing a simulation without any elements does
 not divide by zero

---
 src/pqsim/Simulator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 2ce8e38..3932acd 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -131,10 +131,12 @@ namespace {
     const size_t traffic = sim.getPushSum();
     out << "*** Simulation \"" << name << "\"\n ";
     out << sim.getPushCount() << " spans\n ";
-    out << (traffic / sim.getPushCount()) << " per span on average\n ";
+    out << (traffic == 0 ? 0 : traffic / sim.getPushCount())
+      << " per span on average\n ";
     out << sim.getAvgLiveCount() << " elements in queue on average\n ";
     out << traffic << " entries popped in total.\n ";
-    out << (sim.getDupliateCount() * 100 / traffic) << "% duplicates\n ";
+    out << (traffic == 0 ? 0 : sim.getDupliateCount() * 100 / traffic)
+      << "% duplicates\n ";
     out << repeats << " repeats.\n";
     return out.str();
   }
-- 
2.43.0


From 1b90839c3316a481b81e6fd79d4caff30c03cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:50 +0000
Subject: [PATCH 24/25] fix: makeStandard makes as many insertions and queries
 as asked for

---
 src/divsim/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divsim/Simulation.cpp b/src/divsim/Simulation.cpp
index 49ca2f9..0373a19 100755
--- a/src/divsim/Simulation.cpp
+++ b/src/divsim/Simulation.cpp
@@ -27,7 +27,7 @@ void Simulation::makeStandard
     Event event;
     event._monomial.resize(varCount);
     makeRandom(event._monomial);
-    event._type = (i <= inserts ? InsertUnknown : QueryUnknown);
+    event._type = (i < inserts ? InsertUnknown : QueryUnknown);
     _events.push_back(event);
   }
 }
-- 
2.43.0


From 2e4a32f97d63835950466d09e8eb2ec7cde45fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:17 +0000
Subject: [PATCH 25/25] fix: a rejected argument leaves the value of an integer
 parameter as it was

processArgument stored what the stream extracted before it checked that
the whole argument was a number, so that a caller who catches the error
is left with a value that was never accepted.
---
 src/mathic/IntegerParameter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/IntegerParameter.cpp b/src/mathic/IntegerParameter.cpp
index f17cf32..01baed4 100755
--- a/src/mathic/IntegerParameter.cpp
+++ b/src/mathic/IntegerParameter.cpp
@@ -24,13 +24,15 @@ namespace mathic {
 
   void IntegerParameter::processArgument(const std::string& argument) {
     std::istringstream in(argument);
-    in >> _value;
+    unsigned int parsed = 0;
+    in >> parsed;
     std::ostringstream out;
-    out << _value;
+    out << parsed;
     if (out.str() != argument) {
       reportError("The value given to option -" + name() + " was not "
         "as expected. It must be a non-negative integer in the range "
         "[0, 2^31-1].");
     }
+    _value = parsed;
   }
 }
-- 
2.43.0

