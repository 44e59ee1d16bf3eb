From e66fd946909550aea258678620bd4e2ff33edfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 01/76] fix: a database name of one rule is not an error for
 the schema's other rules

Listing (or querying axes) at level 1 failed with an assertion as soon as the
schema had a database rule with more mandatory keywords than the name of a
database that belongs to another rule.
---
 src/fdb5/rules/Rule.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 43cffe5..debbc20 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -213,7 +213,10 @@ std::optional<Key> Rule::findMatchingKey(const eckit::StringList& values) const
         return {};
     }
 
-    ASSERT(values.size() >= requiredPredicateCount(predicates_));
+    /// @note the values may stem from another rule of the schema, with more or fewer keywords than this one
+    if (values.size() != predicates_.size()) {
+        return {};
+    }
 
     TypedKey key(registry_);
 
-- 
2.43.0


From d786acb6fa98ff60f29fe897ae431f4335c09d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 02/76] fix: listing selects each field by its own keywords

The keywords of a field left the request as soon as one field of its index had
them, so a listing naming an optional keyword also gave the fields of that index
that lack the keyword, when they happened to come later.
---
 src/fdb5/api/local/ListVisitor.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/api/local/ListVisitor.h b/src/fdb5/api/local/ListVisitor.h
index 7ad949e..5a30070 100644
--- a/src/fdb5/api/local/ListVisitor.h
+++ b/src/fdb5/api/local/ListVisitor.h
@@ -35,6 +35,7 @@
 
 #include "metkit/mars/MarsRequest.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 
@@ -133,10 +134,10 @@ public:
 
         // Take into account any rule-specific behaviour in the request
         if (datumKey.partialMatch(canonicalise(*rule_))) {
-            for (const auto& k : datumKey.keys()) {
-                datumRequest_.unsetValues(k);
-            }
-            if (datumRequest_.parameters().size() == 0) {
+            // The request must be used in its entirety by this very field (fields of one index may have different keys)
+            const auto params = datumRequest_.params();
+            if (std::all_of(params.begin(), params.end(),
+                            [&datumKey](const auto& param) { return datumKey.find(param).second; })) {
                 queue_.emplace(currentCatalogue_->key(), currentIndex_->key(), datumKey, field.stableLocation(),
                                field.timestamp());
             }
-- 
2.43.0


From b312a743ba16625ffb3c14dcba5139c06a19b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 03/76] fix: retrieving a whole number of seven or more digits
 under a Double keyword

The request's value was formatted with six significant digits (1234567 became
1.23457e+06, then 1234570) whereas the archived key has all digits of it.
---
 src/fdb5/types/TypeDouble.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/types/TypeDouble.cc b/src/fdb5/types/TypeDouble.cc
index eace950..e4e83e7 100644
--- a/src/fdb5/types/TypeDouble.cc
+++ b/src/fdb5/types/TypeDouble.cc
@@ -19,12 +19,9 @@ namespace fdb5 {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-TypeDouble::TypeDouble(const std::string& name, const std::string& type) : Type(name, type) {}
-
-TypeDouble::~TypeDouble() {}
+namespace {
 
-std::string TypeDouble::toKey(const std::string& value) const {
-    double v = eckit::Translator<std::string, double>()(value);
+std::string canonicalDouble(const double v) {
     long long ll = static_cast<long long>(v);
 
     if (ll == v) {
@@ -35,18 +32,28 @@ std::string TypeDouble::toKey(const std::string& value) const {
     }
 }
 
+}  // namespace
+
+//----------------------------------------------------------------------------------------------------------------------
+
+TypeDouble::TypeDouble(const std::string& name, const std::string& type) : Type(name, type) {}
+
+TypeDouble::~TypeDouble() {}
+
+std::string TypeDouble::toKey(const std::string& value) const {
+    return canonicalDouble(eckit::Translator<std::string, double>()(value));
+}
+
 void TypeDouble::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
                            eckit::StringList& values, const CatalogueReader*) const {
     std::vector<double> dblValues;
 
     request.getValues(keyword, dblValues, true);
 
-    eckit::Translator<double, std::string> t;
-
     values.reserve(dblValues.size());
 
     for (std::vector<double>::const_iterator i = dblValues.begin(); i != dblValues.end(); ++i) {
-        values.push_back(t(*i));
+        values.push_back(canonicalDouble(*i));
     }
 }
 
-- 
2.43.0


From 1b4ea4e5af784f549a6bb22e108e7247536861b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 04/76] fix: a schema rule excluding a single value
 (key=!value) excludes it

It admitted that value only.
---
 src/fdb5/rules/SchemaParser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index ae71d71..5f72fa8 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -116,6 +116,9 @@ std::unique_ptr<Predicate> SchemaParser::parsePredicate(eckit::StringDict& types
         case 0:
             return std::make_unique<Predicate>(k, new MatchAlways());
         case 1:
+            if (exclude) {
+                return std::make_unique<Predicate>(k, new ExcludeAll(values));
+            }
             return std::make_unique<Predicate>(k, new MatchValue(*values.begin()));
         default:
             if (exclude) {
-- 
2.43.0


From 788b27e639c1c1aeaabd7c3f4069f56e3a2371d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 05/76] fix: dumping a schema keeps the '!' of exclusions

Without it the dumped rule admits exactly the excluded values when it is parsed again.
---
 src/fdb5/rules/ExcludeAll.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/rules/ExcludeAll.cc b/src/fdb5/rules/ExcludeAll.cc
index 2f95dab..440f999 100644
--- a/src/fdb5/rules/ExcludeAll.cc
+++ b/src/fdb5/rules/ExcludeAll.cc
@@ -65,7 +65,7 @@ bool ExcludeAll::match(const std::string& value) const {
 void ExcludeAll::dump(std::ostream& s, const std::string& keyword, const TypesRegistry& registry) const {
     const char* sep = "";
     registry.dump(s, keyword);
-    s << "=";
+    s << "=!";
     for (std::set<std::string>::const_iterator i = values_.begin(); i != values_.end(); ++i) {
         s << sep << *i;
         sep = "/";
-- 
2.43.0


From 8af89e1bbde4acb96bdbf27a4694669cdf2f682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 06/76] fix: optional keywords of a rule need not be made up
 for by other keywords

A field with fewer keywords than a rule has predicates was refused, even if the
keywords it lacks are optional.
---
 src/fdb5/rules/Rule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index debbc20..41af48b 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -186,7 +186,7 @@ size_t Rule::size() const {
 
 std::optional<Key> Rule::findMatchingKey(const Key& field) const {
 
-    if (field.size() < predicates_.size()) {
+    if (field.size() < requiredPredicateCount(predicates_)) {
         return {};
     }
 
-- 
2.43.0


From 5c2f0c454481618927ef843ffbc258b5db4d3b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 07/76] fix: a schema rule without element keys is a syntax
 error

It dereferenced a null pointer.
---
 src/fdb5/rules/SchemaParser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index 5f72fa8..6ec466e 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -185,8 +185,7 @@ std::unique_ptr<RuleIndex> SchemaParser::parseIndex() {
 
     char c = peek();
     if (c == ']') {
-        consume(c);
-        return std::make_unique<RuleIndex>(line, predicates, types, std::move(rule));
+        throw StreamParser::Error("Syntax error: rule without element keys", line);
     }
 
     for (;;) {
@@ -206,6 +205,9 @@ std::unique_ptr<RuleIndex> SchemaParser::parseIndex() {
 
         c = peek();
         if (c == ']') {
+            if (!rule) {
+                throw StreamParser::Error("Syntax error: rule without element keys", line);
+            }
             consume(c);
             return std::make_unique<RuleIndex>(line, predicates, types, std::move(rule));
         }
-- 
2.43.0


From 75833914436a1202f09e72e0d82028a2a47df7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 08/76] fix: archiving with metadata that is not valid stores
 nothing

The metadata were checked after the field had been archived, so that the field
of a failed archive() became visible with the next flush.
---
 src/fdb5/database/Archiver.cc | 5 +----
 src/fdb5/rules/Rule.cc        | 3 +++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/database/Archiver.cc b/src/fdb5/database/Archiver.cc
index 47051c8..014d9b3 100644
--- a/src/fdb5/database/Archiver.cc
+++ b/src/fdb5/database/Archiver.cc
@@ -49,14 +49,11 @@ void Archiver::archive(const Key& key, BaseArchiveVisitor& visitor) {
 
     dbConfig_.schema().expand(key, visitor);
 
-    const Rule* rule = visitor.rule();
-    if (rule == nullptr) {  // Make sure we did find a rule that matched
+    if (visitor.rule() == nullptr) {  // Make sure we did find a rule that matched
         std::ostringstream oss;
         oss << "FDB: Could not find a rule to archive " << key;
         throw eckit::SeriousBug(oss.str());
     }
-    // validate metadata
-    rule->check(key);
 }
 
 void Archiver::flushDatabase(Database& db) {
diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 41af48b..f8d7fb5 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -565,6 +565,9 @@ bool RuleDatum::expand(const Key& field, WriteVisitor& visitor, Key& full) const
             throw eckit::SeriousBug(oss.str());
         }
 
+        // validate metadata, before anything is stored
+        check(field);
+
         if (visitor.selectDatum(*key, full)) {
             visitor.rule(this);
             static const bool matchFirstFdbRule = eckit::Resource<bool>("matchFirstFdbRule", true);
-- 
2.43.0


From 05c5f52eccb242977d808e7724979b9f15bf2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 09/76] fix: the name of a database holds values in canonical
 form already

Listing down to databases failed for a schema with a component of a date
(Year, Month, ClimateDaily, ...) in a database rule.
---
 src/fdb5/rules/Rule.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index f8d7fb5..45904e1 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -218,7 +218,7 @@ std::optional<Key> Rule::findMatchingKey(const eckit::StringList& values) const
         return {};
     }
 
-    TypedKey key(registry_);
+    Key key;
 
     for (auto iter = predicates_.begin(); iter != predicates_.end(); ++iter) {
         const auto& pred = *iter;
@@ -232,10 +232,11 @@ std::optional<Key> Rule::findMatchingKey(const eckit::StringList& values) const
             return {};
         }
 
-        key.push(keyword, value);
+        // the values stem from a key in canonical form, whose type need not accept them again (e.g. the year of a date)
+        key.set(registry_.lookupType(keyword).alias(), value);
     }
 
-    return key.canonical();
+    return key;
 }
 
 std::optional<Key> Rule::findMatchingKey(const Key& field, const char* missing) const {
-- 
2.43.0


From bab460cb4a9ed41bb0e931e7a7ce8b8f5c4bd065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 10/76] fix: match steps against the axis of their own keyword

TypeStep always consulted the axis of the keyword 'step', also for other keywords of type Step, whose
values were then normalised against unrelated steps and not found.
---
 src/fdb5/types/TypeStep.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/types/TypeStep.cc b/src/fdb5/types/TypeStep.cc
index 778bc1c..e01f112 100644
--- a/src/fdb5/types/TypeStep.cc
+++ b/src/fdb5/types/TypeStep.cc
@@ -69,7 +69,7 @@ void TypeStep::getValues(const metkit::mars::MarsRequest& request, const std::st
     // If this is before knowing the Catalogue, we are constrained on what we can do.
     if (cat) {
         // Get the axis
-        auto ax = cat->axis("step");
+        auto ax = cat->axis(keyword);
         if (ax) {
             std::vector<StepRange> axis;
             for (auto step : ax->get()) {
-- 
2.43.0


From 3a6506587cf8660a21d0a2bec9089258886d77ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 11/76] fix: tell fields with different optional keywords apart
 when deduplicating a listing

Deduplication compared only the values of the keywords that are present, so that two fields of a
database having the same values for different optional keywords were reported as one.
---
 src/fdb5/api/helpers/ListIterator.cc | 7 ++++---
 src/fdb5/api/helpers/ListIterator.h  | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fdb5/api/helpers/ListIterator.cc b/src/fdb5/api/helpers/ListIterator.cc
index fb23465..37b5dca 100644
--- a/src/fdb5/api/helpers/ListIterator.cc
+++ b/src/fdb5/api/helpers/ListIterator.cc
@@ -111,13 +111,14 @@ std::pair<size_t, eckit::Length> ListIterator::dumpCompact(std::ostream& out) {
 
 bool KeyStore::tryInsert(const std::array<Key, 3>& keyParts) {
     // Level 1 and 2, may or may not exist. But it doesn't matter for the insert
-    auto& level1 = fingerprints_[keyParts[0].valuesToString()];
-    auto& level2 = level1[keyParts[1].valuesToString()];
+    // n.b. The values alone are ambiguous: optional keywords may be missing, and rules may differ in their keywords
+    auto& level1 = fingerprints_[keyParts[0]];
+    auto& level2 = level1[keyParts[1]];
 
     // And then for the third level, we try and insert. And if it does not
     // already exist, that is great!
 
-    auto [_, ins] = level2.insert(keyParts[2].valuesToString());
+    auto [_, ins] = level2.insert(keyParts[2]);
     return ins;
 }
 
diff --git a/src/fdb5/api/helpers/ListIterator.h b/src/fdb5/api/helpers/ListIterator.h
index b1cb224..ee47e42 100644
--- a/src/fdb5/api/helpers/ListIterator.h
+++ b/src/fdb5/api/helpers/ListIterator.h
@@ -63,9 +63,9 @@ using ListAggregateIterator = APIAggregateIterator<ListElement>;
 /// hashing these objects.
 ///
 /// We now store a hierarchy of key components, such that the (rarely changing) first two levels of the key are only
-/// stored once for each set of values. The actual values stored are the fingerprints in the format
-/// <value>:<value>:... as constructed in conjunction with the schema - which are significantly smaller than the
-/// Key objects, and have the advantage of being a single allocation.
+/// stored once for each set of values. The actual values stored are strings in the format
+/// <keyword>=<value>,<keyword>=<value>,... without the missing optional keywords - which are significantly smaller than
+/// the Key objects, and have the advantage of being a single allocation.
 ///
 /// The introduction of this class eliminates a class of out-of-memory kill events, and improves the performance of
 /// listing the contents of the FDB
-- 
2.43.0


From b059b7e110dfa38a70e79d5b97e1332581eb8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:00 +0000
Subject: [PATCH 12/76] fix: refuse climatological months and days that do not
 exist

Month 0 read outside the table of month names when retrieving, and trailing characters or days such
as feb-30 were accepted.
---
 src/fdb5/types/TypeClimateDaily.cc   | 3 ++-
 src/fdb5/types/TypeClimateMonthly.cc | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/types/TypeClimateDaily.cc b/src/fdb5/types/TypeClimateDaily.cc
index 5ec13d0..a0d2b9d 100644
--- a/src/fdb5/types/TypeClimateDaily.cc
+++ b/src/fdb5/types/TypeClimateDaily.cc
@@ -47,7 +47,8 @@ static int month(const std::string& value) {
 
         for (int i = 0; i < 12; i++) {
             if (v[0] == months[i]) {
-                return (i + 1) * 100 + t(v[1]);
+                eckit::Date date(2000, i + 1, t(v[1]));  // throws if there is no such day (in a leap year)
+                return date.month() * 100 + date.day();
             }
         }
 
diff --git a/src/fdb5/types/TypeClimateMonthly.cc b/src/fdb5/types/TypeClimateMonthly.cc
index 294d10a..ec34200 100644
--- a/src/fdb5/types/TypeClimateMonthly.cc
+++ b/src/fdb5/types/TypeClimateMonthly.cc
@@ -30,7 +30,11 @@ TypeClimateMonthly::~TypeClimateMonthly() {}
 
 static int month(const std::string& value) {
     if (isdigit(value[0])) {
-        int n = stoi(value);
+        size_t end = 0;
+        int n      = stoi(value, &end);
+        if (n < 1 || end != value.size()) {
+            throw eckit::BadValue("TypeClimateMonthly: invalid month: " + value, Here());
+        }
         if (n <= 12) {
             return n;
         }
-- 
2.43.0


From 7788ee76a02c811bed8e343afa2cd7d4215ee15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 13/76] fix: keep one canonical form of dates and integers

Values of the types Date and Integer were stored as they were spelled, but always looked up in
canonical form, so that fields archived as e.g. 2020-01-01 or 01 were never found. Values which
are not integers were taken for 0 when retrieving.
---
 src/fdb5/types/TypeDate.cc    | 11 +++++++++++
 src/fdb5/types/TypeDate.h     |  2 ++
 src/fdb5/types/TypeInteger.cc | 28 +++++++++++++++++++++++-----
 src/fdb5/types/TypeInteger.h  |  2 ++
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/types/TypeDate.cc b/src/fdb5/types/TypeDate.cc
index c909f49..b32a55d 100644
--- a/src/fdb5/types/TypeDate.cc
+++ b/src/fdb5/types/TypeDate.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cctype>
+
 #include "eckit/utils/Translator.h"
 
 #include "eckit/types/Date.h"
@@ -39,6 +41,15 @@ std::string TypeDate::tidy(const std::string& value) const {
     return value;
 }
 
+std::string TypeDate::toKey(const std::string& value) const {
+    // n.b. the keyword may be of another type in other rules a request is matched with (e.g. jan-15)
+    if (value.empty() || (!std::isdigit(static_cast<unsigned char>(value[0])) && value[0] != '-')) {
+        return Type::toKey(value);
+    }
+    eckit::Date date(tidy(value));
+    return eckit::Translator<long, std::string>()(date.yyyymmdd());
+}
+
 void TypeDate::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
                          eckit::StringList& values, const CatalogueReader*) const {
     std::vector<eckit::Date> dates;
diff --git a/src/fdb5/types/TypeDate.h b/src/fdb5/types/TypeDate.h
index c02ee52..d499b83 100644
--- a/src/fdb5/types/TypeDate.h
+++ b/src/fdb5/types/TypeDate.h
@@ -32,6 +32,8 @@ public:  // methods
 
     std::string tidy(const std::string& value) const override;
 
+    std::string toKey(const std::string& value) const override;
+
     void getValues(const metkit::mars::MarsRequest& request, const std::string& keyword, eckit::StringList& values,
                    const CatalogueReader* cat) const override;
 
diff --git a/src/fdb5/types/TypeInteger.cc b/src/fdb5/types/TypeInteger.cc
index 08b5f08..6e9fb93 100644
--- a/src/fdb5/types/TypeInteger.cc
+++ b/src/fdb5/types/TypeInteger.cc
@@ -8,6 +8,10 @@
  * does it submit to any jurisdiction.
  */
 
+#include <stdexcept>
+#include <string>
+
+#include "eckit/exception/Exceptions.h"
 #include "eckit/utils/Translator.h"
 
 #include "metkit/mars/MarsRequest.h"
@@ -23,18 +27,32 @@ TypeInteger::TypeInteger(const std::string& name, const std::string& type) : Typ
 
 TypeInteger::~TypeInteger() {}
 
+std::string TypeInteger::toKey(const std::string& value) const {
+    // n.b. the translation of strings to integers ignores whatever it does not understand
+    size_t end = 0;
+    long n     = 0;
+    try {
+        n = std::stol(value, &end);
+    }
+    catch (const std::logic_error&) {
+        end = 0;
+    }
+    if (end == 0 || end != value.size()) {
+        throw eckit::BadValue("TypeInteger: invalid value '" + value + "' of " + name_, Here());
+    }
+    return eckit::Translator<long, std::string>()(n);
+}
+
 void TypeInteger::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
                             eckit::StringList& values, const CatalogueReader*) const {
-    std::vector<long> intValues;
+    std::vector<std::string> intValues;
 
     request.getValues(keyword, intValues, true);
 
-    eckit::Translator<long, std::string> t;
-
     values.reserve(intValues.size());
 
-    for (std::vector<long>::const_iterator i = intValues.begin(); i != intValues.end(); ++i) {
-        values.push_back(t(*i));
+    for (const auto& value : intValues) {
+        values.push_back(toKey(value));
     }
 }
 
diff --git a/src/fdb5/types/TypeInteger.h b/src/fdb5/types/TypeInteger.h
index 271533e..fe9e80c 100644
--- a/src/fdb5/types/TypeInteger.h
+++ b/src/fdb5/types/TypeInteger.h
@@ -30,6 +30,8 @@ public:  // methods
 
     ~TypeInteger() override;
 
+    std::string toKey(const std::string& value) const override;
+
     void getValues(const metkit::mars::MarsRequest& request, const std::string& keyword, eckit::StringList& values,
                    const CatalogueReader* cat) const override;
 
-- 
2.43.0


From 37733bb2f9844e5c5bc2400e457a684d9178734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 14/76] fix: find databases whose names hold characters that
 are special in regular expressions

---
 src/fdb5/toc/RootManager.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 47e3489..bdc1ea4 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -134,7 +134,6 @@ private:  // methods
         size_t len = s.length();
         bool var = false;
         std::string word;
-        std::map<std::string, std::string>::const_iterator j;
 
         for (size_t i = 0; i < len; i++) {
             switch (s[i]) {
@@ -166,7 +165,7 @@ private:  // methods
                                 result += keyregex_.find(word)->second;
                             }
                             else {
-                                result += (*j).second;
+                                result += Regex::escape(iter->second);
                             }
                         }
                     }
@@ -183,7 +182,7 @@ private:  // methods
                         word += s[i];
                     }
                     else {
-                        result += s[i];
+                        result += missing ? Regex::escape(s.substr(i, 1)) : s.substr(i, 1);
                     }
                     break;
             }
@@ -581,7 +580,7 @@ std::vector<std::string> RootManager::possibleDbPathNames(const Key& key, const
     for (const auto& k : key.names()) {
         const auto& v = key.get(k);
         oss << sep;
-        oss << (v == missing || v.empty() ? missing : v);
+        oss << (v == missing || v.empty() ? std::string(missing) : Regex::escape(v));
         sep = ":";
     }
     result.push_back(oss.str());
-- 
2.43.0


From d5742654e351744a0badd1811d60c50af0419b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 15/76] fix: fields without an optional parameter do not
 prevent the retrieval of the others

---
 src/fdb5/types/TypeParam.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/types/TypeParam.cc b/src/fdb5/types/TypeParam.cc
index def4695..78023c7 100644
--- a/src/fdb5/types/TypeParam.cc
+++ b/src/fdb5/types/TypeParam.cc
@@ -41,7 +41,12 @@ void TypeParam::getValues(const metkit::mars::MarsRequest& request, const std::s
     std::vector<Param> axis;
     auto ax = cat->axis(keyword);
     if (ax) {
-        std::copy(ax->get().begin(), ax->get().end(), std::back_inserter(axis));
+        // an optional keyword that a field lacks is an empty value of the axis
+        for (const auto& v : ax->get()) {
+            if (!v.empty()) {
+                axis.emplace_back(v);
+            }
+        }
         std::sort(axis.begin(), axis.end());
     }
 
-- 
2.43.0


From b7964a21b06565b7d9ddc8bd52bea822ba21175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:10 +0000
Subject: [PATCH 16/76] fix: a TOC without its TOC_INIT record is not there yet
 for readers

Between the creation of the toc file and the append of its first record
(or for ever, if the writer dies there) opening the database for reading
threw SeriousBug, so that a retrieval which names it, perhaps amongst
other databases, failed altogether.
---
 src/fdb5/toc/TocHandler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 68f7695..04a9c3a 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -219,7 +219,8 @@ TocHandler::~TocHandler() {
 }
 
 bool TocHandler::exists() const {
-    return tocPath_.exists();
+    // A TOC is created empty; until its TOC_INIT record has been appended there is nothing in it to be read
+    return tocPath_.exists() && tocPath_.size() > eckit::Length(0);
 }
 
 void TocHandler::openForAppend() {
@@ -1305,7 +1306,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
 
     std::vector<Index> indexes;
 
-    if (!tocPath_.exists()) {
+    if (!exists()) {
         return indexes;
     }
 
-- 
2.43.0


From 508eee0fe13f389341f6d780d14fd59696434a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:58 +0000
Subject: [PATCH 17/76] fix: the names of data files are not URIs

The location of a field was read back by parsing the name of its data
file as a URI. If the first (optional) keyword of the index key is
missing the name starts with a colon, which was dropped, so that the
fields of such an index were lost.
---
 src/fdb5/database/UriStore.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/fdb5/database/UriStore.cc b/src/fdb5/database/UriStore.cc
index f0867a4..190bd7a 100644
--- a/src/fdb5/database/UriStore.cc
+++ b/src/fdb5/database/UriStore.cc
@@ -37,16 +37,26 @@ UriStore::UriStore(const eckit::PathName& directory, eckit::Stream& s) :
 
         s >> id;
         s >> p;
-        eckit::URI uri(p);
-
-        if ((uri.scheme() == "unix") || (uri.scheme() == "file")) {
-            eckit::PathName path = uri.path();
-            std::string q = path.asString();
-
-            if (!q.empty() && q[0] != '/') {
-                path = directory_ / path;
+        // n.b. see encode(): the paths of files are not encoded as URIs, and may contain what is special in a URI. In
+        //      particular, the name of a data file starts with a colon if the first value of the index key is missing.
+        eckit::URI uri;
+        if (p.find('/') == std::string::npos) {
+            uri = eckit::URI("file", directory_ / p);
+        }
+        else if (p[0] == '/') {
+            uri = eckit::URI("file", eckit::PathName(p));
+        }
+        else {
+            uri = eckit::URI(p);
+            if ((uri.scheme() == "unix") || (uri.scheme() == "file")) {
+                eckit::PathName path = uri.path();
+                std::string q = path.asString();
+
+                if (!q.empty() && q[0] != '/') {
+                    path = directory_ / path;
+                }
+                uri = eckit::URI("file", path);
             }
-            uri = eckit::URI("file", path);
         }
 
         paths_[id] = uri;
-- 
2.43.0


From ee80e6cb4477b125d65364abe307aa264eef9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 18/76] fix: wipe and purge skip databases that are locked for
 wiping

The visitors of both skip the content of such a database, but its
completion is still visited: a wipe failed with an assertion (for all the
databases it selects), and a purge dereferenced a null pointer.
---
 src/fdb5/api/local/PurgeVisitor.cc | 6 ++++++
 src/fdb5/api/local/WipeVisitor.cc  | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index 789386c..17d26b6 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -75,6 +75,12 @@ void PurgeVisitor::visitDatum(const Field& field, const std::string& keyFingerpr
 }
 
 void PurgeVisitor::catalogueComplete(const Catalogue& catalogue) {
+
+    // The Catalogue has been skipped, as it is locked for wiping
+    if (!internalVisitor_) {
+        return;
+    }
+
     internalVisitor_->catalogueComplete(catalogue);
 
     internalVisitor_->gatherAuxiliaryURIs();
diff --git a/src/fdb5/api/local/WipeVisitor.cc b/src/fdb5/api/local/WipeVisitor.cc
index 8a631c4..8ea31a6 100644
--- a/src/fdb5/api/local/WipeVisitor.cc
+++ b/src/fdb5/api/local/WipeVisitor.cc
@@ -112,7 +112,12 @@ bool WipeCatalogueVisitor::visitIndex(const Index& index) {
 void WipeCatalogueVisitor::catalogueComplete(const Catalogue& catalogue) {
 
     ASSERT(currentCatalogue_ == &catalogue);
-    ASSERT(catalogueWipeState_);
+
+    // The Catalogue has been skipped, as it is locked for wiping
+    if (!catalogueWipeState_) {
+        EntryVisitor::catalogueComplete(catalogue);
+        return;
+    }
 
     catalogue.finaliseWipeState(*catalogueWipeState_);
     catalogueWipeState_->sanityCheck();
-- 
2.43.0


From 15caf615abad41ab79708d5629b5c5daa3767fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 19/76] fix: the control file that allows duplicates is one of
 the archive's files

A wipe of a whole database for which UniqueRoot was disabled was refused,
taking that control file for an unexpected entry.
---
 src/fdb5/toc/TocHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 04a9c3a..94af824 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1892,7 +1892,7 @@ std::vector<PathName> TocHandler::lockfilePaths() const {
 
     std::vector<PathName> paths;
 
-    for (const auto& name : {retrieve_lock_file, archive_lock_file, list_lock_file, wipe_lock_file}) {
+    for (const auto& [_, name] : controlfile_lookup) {
 
         PathName fullPath = fullControlFilePath(name);
         if (fullPath.exists()) {
-- 
2.43.0


From 6ad89e49f89fb3a780c31589adf9f64029b67325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 20/76] fix: a wipe that selects a locked database is refused,
 as before

Reverts the part of ee80e6c that concerns wipe: users (and tests) rely on
the error; the null pointer in purge stays fixed.
---
 src/fdb5/api/local/WipeVisitor.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/fdb5/api/local/WipeVisitor.cc b/src/fdb5/api/local/WipeVisitor.cc
index 8ea31a6..8a631c4 100644
--- a/src/fdb5/api/local/WipeVisitor.cc
+++ b/src/fdb5/api/local/WipeVisitor.cc
@@ -112,12 +112,7 @@ bool WipeCatalogueVisitor::visitIndex(const Index& index) {
 void WipeCatalogueVisitor::catalogueComplete(const Catalogue& catalogue) {
 
     ASSERT(currentCatalogue_ == &catalogue);
-
-    // The Catalogue has been skipped, as it is locked for wiping
-    if (!catalogueWipeState_) {
-        EntryVisitor::catalogueComplete(catalogue);
-        return;
-    }
+    ASSERT(catalogueWipeState_);
 
     catalogue.finaliseWipeState(*catalogueWipeState_);
     catalogueWipeState_->sanityCheck();
-- 
2.43.0


From b84b2b8809b6e914644feb2b82b4f0c7cceb41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 21/76] fix: a move that is refused does not leave the database
 locked

---
 src/fdb5/api/local/MoveVisitor.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/api/local/MoveVisitor.cc b/src/fdb5/api/local/MoveVisitor.cc
index 12f1d42..fa91ffd 100644
--- a/src/fdb5/api/local/MoveVisitor.cc
+++ b/src/fdb5/api/local/MoveVisitor.cc
@@ -41,8 +41,17 @@ MoveVisitor::MoveVisitor(eckit::Queue<MoveElement>& queue, const metkit::mars::M
 
 bool MoveVisitor::visitDatabase(const Catalogue& catalogue) {
     if (catalogue.key().match(request_)) {
-        catalogue.control(ControlAction::Disable,
-                          ControlIdentifier::Archive | ControlIdentifier::Wipe | ControlIdentifier::UniqueRoot);
+        const auto locks = ControlIdentifier::Archive | ControlIdentifier::Wipe | ControlIdentifier::UniqueRoot;
+
+        // what has to be enabled again should the move be refused
+        ControlIdentifiers unlocked;
+        for (ControlIdentifier identifier : locks) {
+            if (catalogue.enabled(identifier)) {
+                unlocked |= identifier;
+            }
+        }
+
+        catalogue.control(ControlAction::Disable, locks);
 
         // assert the source is locked for archival...
         ASSERT(!catalogue.enabled(ControlIdentifier::Archive));
@@ -52,8 +61,14 @@ bool MoveVisitor::visitDatabase(const Catalogue& catalogue) {
         EntryVisitor::visitDatabase(catalogue);
 
         ASSERT(!internalVisitor_);
-        internalVisitor_.reset(catalogue.moveVisitor(store(), request_, dest_, queue_));
-        internalVisitor_->visitDatabase(catalogue);
+        try {
+            internalVisitor_.reset(catalogue.moveVisitor(store(), request_, dest_, queue_));
+            internalVisitor_->visitDatabase(catalogue);
+        }
+        catch (...) {
+            catalogue.control(ControlAction::Enable, unlocked);
+            throw;
+        }
 
         return true;
     }
-- 
2.43.0


From 102bda8d3eae38def6570e1020b750b53f57e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 22/76] fix: move the data of a database to where its catalogue
 goes

With a naming table (dbnames) the directory of a database is not the values of its key.
---
 src/fdb5/toc/TocStore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 52d72af..5f0d353 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -358,7 +358,7 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
     for (const eckit::PathName& root : StoreRootManager(config).canMoveToRoots(key)) {
         if (root.sameAs(destPath)) {
             eckit::PathName src_db = directory_;
-            eckit::PathName dest_db = destPath / key.valuesToString();
+            eckit::PathName dest_db = destPath / src_db.baseName(true);
 
             dest_db.mkdir();
             DIR* dirp = ::opendir(src_db.asString().c_str());
-- 
2.43.0


From 14714e97eaabdcdfa6f37fb8b2ef16bb015f7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 23/76] fix: a move does not keep the index files of the
 database locked

Their descriptors were never closed: after a refused move, the next one in
the same process waited for ever.
---
 src/fdb5/toc/TocMoveVisitor.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fdb5/toc/TocMoveVisitor.cc b/src/fdb5/toc/TocMoveVisitor.cc
index 47dace3..f179430 100644
--- a/src/fdb5/toc/TocMoveVisitor.cc
+++ b/src/fdb5/toc/TocMoveVisitor.cc
@@ -27,7 +27,9 @@
 #include <fdb5/LibFdb5.h>
 #include <sys/file.h>
 #include <sys/types.h>
+#include <unistd.h>
 #include <cstring>
+#include <vector>
 
 using namespace eckit;
 
@@ -52,12 +54,23 @@ bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
     MoveVisitor::visitDatabase(catalogue_);
 
     // TOC specific checks: index files not locked
+    // (the locks are released once the move has been refused, or everything to be moved is known)
+    struct Files {
+        std::vector<int> fds;
+        ~Files() {
+            for (int fd : fds) {
+                ::close(fd);
+            }
+        }
+    } indexFiles;
+
     DIR* dirp = ::opendir(catalogue_.basePath().c_str());
     struct dirent* dp;
     while ((dp = readdir(dirp)) != NULL) {
         if (strstr(dp->d_name, ".index")) {
             eckit::PathName src_ = PathName(catalogue_.basePath()) / dp->d_name;
             int fd = ::open(src_.asString().c_str(), O_RDWR);
+            indexFiles.fds.push_back(fd);
             if (::flock(fd, LOCK_EX)) {
                 std::ostringstream ss;
                 ss << "Index file " << dp->d_name << " is locked";
-- 
2.43.0


From 837ad87701f54251f2051c990036406c7f3268b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 24/76] fix: a move takes each file of a database once

The values of keywords are part of the names of data and index files, which
were taken for others when containing toc., schema or .lock.
---
 src/fdb5/toc/TocMoveVisitor.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocMoveVisitor.cc b/src/fdb5/toc/TocMoveVisitor.cc
index f179430..e99ce6b 100644
--- a/src/fdb5/toc/TocMoveVisitor.cc
+++ b/src/fdb5/toc/TocMoveVisitor.cc
@@ -136,7 +136,12 @@ void TocMoveVisitor::move() {
             DIR* dirp = ::opendir(catalogue_.basePath().c_str());
             struct dirent* dp;
             while ((dp = readdir(dirp)) != NULL) {
-                if (strstr(dp->d_name, ".index") || strstr(dp->d_name, "toc.") || strstr(dp->d_name, "schema")) {
+                // n.b. values of keywords are part of the names of index and data files. The latter are moved by the store
+                const std::string ext = eckit::PathName(dp->d_name).extension();
+                if (ext == ".data") {
+                    continue;
+                }
+                if (ext == ".index" || strstr(dp->d_name, "toc.") || strstr(dp->d_name, "schema")) {
 
                     FileCopy fileCopy(catalogue_.basePath(), dest_db, dp->d_name);
                     queue_.emplace(fileCopy);
@@ -149,7 +154,8 @@ void TocMoveVisitor::move() {
 
             dirp = ::opendir(catalogue_.basePath().c_str());
             while ((dp = readdir(dirp)) != NULL) {
-                if (strstr(dp->d_name, ".lock") || strstr(dp->d_name, "duplicates.allow")) {
+                const std::string ext = eckit::PathName(dp->d_name).extension();
+                if (ext == ".lock" || ext == ".allow") {
 
                     FileCopy fileCopy(catalogue_.basePath(), dest_db, dp->d_name);
                     queue_.emplace(fileCopy);
-- 
2.43.0


From c73f6aaca3067c278352e104f67a656d86a5aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 25/76] fix: a wipe does not remove the directory of a store
 that still holds a catalogue

---
 src/fdb5/toc/TocStore.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 5f0d353..d59d295 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -479,8 +479,14 @@ void TocStore::doWipeEmptyDatabase() const {
 
         eckit::URI uri = this->uri();
 
+        // N.B. the catalogue may be in the same directory, and still refer to data which are not in this store
         if (uri.path().exists()) {
-            remove(uri, eckit::Log::info(), eckit::Log::info(), true);
+            std::vector<eckit::PathName> files;
+            std::vector<eckit::PathName> dirs;
+            uri.path().children(files, dirs);
+            if (files.empty() && dirs.empty()) {
+                remove(uri, eckit::Log::info(), eckit::Log::info(), true);
+            }
         }
         cleanupEmptyDatabase_ = false;
     }
-- 
2.43.0


From bd29f1ec0277ae121e187377e765a829e3e73c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 26/76] fix: fdb-reconsolidate-toc works again, and keeps the
 latest fields

---
 src/fdb5/toc/TocCatalogueWriter.cc | 11 ++++++++---
 src/fdb5/toc/TocHandler.cc         |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/TocCatalogueWriter.cc b/src/fdb5/toc/TocCatalogueWriter.cc
index 5ab59e7..41c87be 100644
--- a/src/fdb5/toc/TocCatalogueWriter.cc
+++ b/src/fdb5/toc/TocCatalogueWriter.cc
@@ -200,7 +200,12 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
     class ConsolidateIndexVisitor : public EntryVisitor {
     public:
 
-        ConsolidateIndexVisitor(TocCatalogueWriter& writer) : writer_(writer) {}
+        ConsolidateIndexVisitor(TocCatalogueWriter& writer) : writer_(writer) { visitDatabase(writer); }
+
+        bool visitIndex(const Index& index) override {
+            EntryVisitor::visitIndex(index);
+            return writer_.selectIndex(index.key()) || writer_.createIndex(index.key(), rule_->size());
+        }
 
     private:
 
@@ -226,9 +231,9 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
 
     ASSERT(readIndexes.size() == indexInSubtoc.size());
 
-    for (size_t i = 0; i < readIndexes.size(); i++) {
+    // The indexes are read in order of precedence: visit the oldest first, as later entries replace earlier ones
+    for (size_t i = readIndexes.size(); i-- > 0;) {
         Index& idx(readIndexes[i]);
-        selectIndex(idx.key());
         idx.entries(visitor);
 
         Log::info() << "Visiting index: " << idx.location().uri() << std::endl;
diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 94af824..1e1cfa0 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1027,6 +1027,8 @@ void TocHandler::writeInitRecord(const Key& key) {
 
     ASSERT(fd_ == -1);
 
+    cachedToc_.reset();  // the TOC may already have been read to find its key
+
     int iomode = O_CREAT | O_RDWR;
     SYSCALL2(fd_ = ::open(tocPath_.localPath(), iomode, mode_t(0777)), tocPath_);
 
-- 
2.43.0


From 93e5fb33d428875f3eb54ed29546f9f71e1626ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 27/76] fix: a database overlaid twice onto another can be read

---
 src/fdb5/toc/TocHandler.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 1e1cfa0..c9b5325 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -11,6 +11,7 @@
 #include <fcntl.h>
 #include <pwd.h>
 #include <sys/types.h>
+#include <algorithm>
 #include <cstddef>
 #include <utility>
 
@@ -888,7 +889,12 @@ public:
         return std::move(subTocReadCache_);
     }
 
-    void addPath(const eckit::LocalPathName& path) { paths_.push_back(path); }
+    void addPath(const eckit::LocalPathName& path) {
+        // N.B. the same DB may have been overlaid more than once
+        if (std::find(paths_.begin(), paths_.end(), path) == paths_.end()) {
+            paths_.push_back(path);
+        }
+    }
 };
 
 void TocHandler::preloadSubTocs(bool readMasked) const {
-- 
2.43.0


From 30f0466f673a73e64ea970b24f09dcae844136d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 28/76] fix: a database onto which a since removed one is
 overlaid can be read

---
 src/fdb5/toc/TocHandler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index c9b5325..241f1d5 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -684,6 +684,11 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
     if (path.path()[0] == '/') {
         absPath = findRealPath(path);
         if (!absPath.exists()) {
+            if (path.baseName() == "toc") {
+                // An overlaid DB which has been removed. N.B. the fallback would be the toc being read.
+                Log::warning() << "Overlaid DB does not exist: " << path.dirName() << std::endl;
+                return "";
+            }
             absPath = currentDirectory() / path.baseName();
         }
     }
-- 
2.43.0


From cf9a8f48e92df92d2b710a1d3ec05a6987e80421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 29/76] fix: removing or hiding one overlay masks that one only

---
 src/fdb5/toc/TocHandler.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 241f1d5..830d5fd 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -621,6 +621,20 @@ void TocHandler::close() const {
     }
 }
 
+namespace {
+
+/// The name by which a subtoc is masked. The subtocs of a DB are told apart by their base names, but the tocs of the DBs
+/// overlaid onto it (see fdb-overlay) all have the same one: these are identified by their full paths.
+eckit::LocalPathName subTocMaskName(const eckit::LocalPathName& path) {
+    const std::string& p = path.path();
+    if (!p.empty() && p[0] == '/' && path.baseName() == "toc") {
+        return TocCommon::findRealPath(path);
+    }
+    return path.baseName();
+}
+
+}  // namespace
+
 void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
                                     std::set<std::pair<LocalPathName, Offset>>& maskedEntries) const {
 
@@ -645,7 +659,7 @@ void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
         switch (r->header_.tag_) {
             case TocRecord::TOC_SUB_TOC: {
                 s >> path;
-                maskedEntries.emplace(std::pair<PathName, Offset>(path.baseName(), 0));
+                maskedEntries.emplace(subTocMaskName(path), 0);
                 break;
             }
 
@@ -698,7 +712,7 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
 
     // If this subtoc has a masking entry, then skip it, and go on to the next entry.
     // Unless readMasked is true, in which case walk it if it exists.
-    std::pair<eckit::LocalPathName, size_t> key(absPath.baseName(), 0);
+    std::pair<eckit::LocalPathName, size_t> key(subTocMaskName(path), 0);
     if (maskedEntries_.find(key) != maskedEntries_.end()) {
         if (!readMasked) {
             LOG_DEBUG_LIB(LibFdb5) << "SubToc ignored by mask: " << path << std::endl;
@@ -989,8 +1003,7 @@ void TocHandler::populateMaskedEntriesList() const {
                     // readNextInternal --> use directory_ not currentDirectory()
                     // ASSERT(path.size() > 0);
                     // eckit::PathName absPath = (path[0] == '/') ? findRealPath(path) : (directory_ / path);
-                    eckit::PathName pathName = path;
-                    maskedEntries_.emplace(std::pair<PathName, Offset>(pathName.baseName(), offset));
+                    maskedEntries_.emplace(subTocMaskName(path), offset);
                 }
                 break;
             }
@@ -1663,6 +1676,9 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     for (const auto& entry : maskedEntries_) {
 
         ASSERT(entry.first.path().size() > 0);
+        if (entry.first.baseName() == "toc") {
+            continue;  // the toc of an overlaid DB: neither it nor what it refers to belongs to this one
+        }
         eckit::LocalPathName absPath;
         if (entry.first.path()[0] == '/') {
             absPath = entry.first;
-- 
2.43.0


From 784cbc2382913f09027143fa99ef3ed67cc11a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 30/76] fix: wiping a database leaves the table of contents of
 those overlaid onto it

---
 src/fdb5/toc/TocCatalogue.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 154a42a..c4a171e 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -235,7 +235,9 @@ void TocCatalogue::finaliseWipeState(CatalogueWipeState& wipeState) const {
     std::set<eckit::URI> controlURIs;
     catalogueURIs.emplace("file", tocPath().path());
     for (const auto& sub : subTocPaths()) {
-        catalogueURIs.emplace("file", sub);
+        if (eckit::PathName(sub).dirName().sameAs(basePath())) {  // not those of an overlaid DB
+            catalogueURIs.emplace("file", sub);
+        }
     }
 
     // schema
-- 
2.43.0


From b772be9c1d78538800927a84083cc40395b8b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 31/76] fix: compact listings keep keywords that are no
 hypercube axes

---
 src/fdb5/api/helpers/ListIterator.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/api/helpers/ListIterator.cc b/src/fdb5/api/helpers/ListIterator.cc
index 37b5dca..843d61f 100644
--- a/src/fdb5/api/helpers/ListIterator.cc
+++ b/src/fdb5/api/helpers/ListIterator.cc
@@ -1,5 +1,6 @@
 #include "fdb5/api/helpers/ListIterator.h"
 
+#include <algorithm>
 #include <unordered_map>
 
 #include "metkit/hypercube/HyperCube.h"
@@ -8,11 +9,20 @@ namespace fdb5 {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// A hypercube has no axes for keywords other than these
+static bool isHyperCubeAxis(const std::string& keyword) {
+    const auto& axes = metkit::hypercube::AxisOrder::instance().axes();
+    return std::find(axes.begin(), axes.end(), keyword) != axes.end();
+}
+
 static std::string keySignature(const fdb5::Key& key) {
     std::string signature;
     std::string separator;
-    for (auto&& k : key.keys()) {
+    for (const auto& [k, v] : key) {
         signature += separator + k;
+        if (!isHyperCubeAxis(k)) {
+            signature += "=" + v;
+        }
         separator = ":";
     }
     return signature;
@@ -96,7 +106,12 @@ std::pair<size_t, eckit::Length> ListIterator::dumpCompact(std::ostream& out) {
                 for (const auto& [k, l] : leaf.second.second) {
                     h.clear(k.request());
                 }
-                for (const auto& r : h.requests()) {
+                for (auto r : h.requests()) {
+                    for (const auto& [k, v] : leaf.second.second.begin()->first) {
+                        if (!isHyperCubeAxis(k)) {
+                            r.setValue(k, v);
+                        }
+                    }
                     out << tree.first << ",";
                     r.dump(out, "", "", false);
                     out << std::endl;
-- 
2.43.0


From de781723f8e2c614a4be36b97951c8c51032d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 32/76] fix: purge after a purge does not fail on data files
 already removed

---
 src/fdb5/toc/TocPurgeVisitor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/toc/TocPurgeVisitor.cc b/src/fdb5/toc/TocPurgeVisitor.cc
index 96464cb..01255ab 100644
--- a/src/fdb5/toc/TocPurgeVisitor.cc
+++ b/src/fdb5/toc/TocPurgeVisitor.cc
@@ -49,6 +49,9 @@ bool TocPurgeVisitor::visitDatabase(const Catalogue& catalogue) {
             Log::error() << "This may occur when purging an overlayed FDB, which is not supported." << std::endl;
             NOTIMP;
         }
+        if (!PathName(uri.path()).exists()) {
+            continue;  // removed by an earlier purge, a remaining masked index just still names it
+        }
         allDataFiles_.insert(uri.path());
         dataUsage_[uri.path()] += 0;
     }
-- 
2.43.0


From 61ddd1a5553453abc490bcd9fed90a7cfc93bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 33/76] fix: a retrieval is not failed by a database that no
 space, or no writable root, could hold

---
 src/fdb5/database/MultiRetrieveVisitor.cc | 10 +++++++++-
 src/fdb5/toc/FileSpace.cc                 |  7 +++++++
 src/fdb5/toc/RootManager.cc               |  3 ++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/MultiRetrieveVisitor.cc b/src/fdb5/database/MultiRetrieveVisitor.cc
index cd8961a..a4e256c 100644
--- a/src/fdb5/database/MultiRetrieveVisitor.cc
+++ b/src/fdb5/database/MultiRetrieveVisitor.cc
@@ -19,6 +19,7 @@
 #include "fdb5/LibFdb5.h"
 #include "fdb5/api/helpers/ListElement.h"
 #include "fdb5/database/Catalogue.h"
+#include "fdb5/database/DatabaseNotFoundException.h"
 #include "fdb5/database/Key.h"
 #include "fdb5/types/Type.h"
 
@@ -57,7 +58,14 @@ bool MultiRetrieveVisitor::selectDatabase(const Key& dbKey, const Key& /* fullKe
 
     /* DB not yet open */
 
-    auto newCatalogue = CatalogueReaderFactory::instance().build(dbKey, config_);
+    std::unique_ptr<CatalogueReader> newCatalogue;
+    try {
+        newCatalogue = CatalogueReaderFactory::instance().build(dbKey, config_);
+    }
+    catch (const DatabaseNotFoundException& e) {
+        LOG_DEBUG_LIB(LibFdb5) << "Database does not exist " << dbKey << ": " << e.what() << std::endl;
+        return false;
+    }
 
     // If this database is locked for retrieval then it "does not exist"
     if (!newCatalogue->enabled(ControlIdentifier::Retrieve)) {
diff --git a/src/fdb5/toc/FileSpace.cc b/src/fdb5/toc/FileSpace.cc
index 8fa31b0..c63ca96 100644
--- a/src/fdb5/toc/FileSpace.cc
+++ b/src/fdb5/toc/FileSpace.cc
@@ -18,6 +18,7 @@
 #include "eckit/os/BackTrace.h"
 
 #include "fdb5/LibFdb5.h"
+#include "fdb5/database/DatabaseNotFoundException.h"
 #include "fdb5/database/Key.h"
 #include "fdb5/toc/FileSpaceHandler.h"
 #include "fdb5/toc/TocHandler.h"
@@ -52,6 +53,12 @@ TocPath FileSpace::filesystem(const Config& config, const Key& key, const eckit:
     LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
     LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
 
+    if (enabled(ControlIdentifier::Archive).empty()) {
+        std::ostringstream oss;
+        oss << "No FDB for key " << key << " and no writable roots available. Configured roots: " << roots();
+        throw DatabaseNotFoundException(oss.str(), Here());
+    }
+
     return TocPath{FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this) / db, ControlIdentifiers{}};
 }
 
diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index bdc1ea4..2899ff7 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -27,6 +27,7 @@
 
 #include "fdb5/LibFdb5.h"
 #include "fdb5/config/Config.h"
+#include "fdb5/database/DatabaseNotFoundException.h"
 #include "fdb5/database/Key.h"
 #include "fdb5/rules/Schema.h"
 #include "fdb5/toc/FileSpace.h"
@@ -619,7 +620,7 @@ TocPath RootManager::directory(const Key& key) {
 
     std::ostringstream oss;
     oss << "No FDB file space for " << key << " (" << keystr << ")";
-    throw eckit::SeriousBug(oss.str());
+    throw DatabaseNotFoundException(oss.str(), Here());
 }
 
 std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
-- 
2.43.0


From d8e1e19d3234f7db8a2dd34d4a26ee1515bcff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 34/76] fix: retrievals do not read from roots that are not
 enabled for them

---
 src/fdb5/toc/FileSpace.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/FileSpace.cc b/src/fdb5/toc/FileSpace.cc
index c63ca96..2d6dd23 100644
--- a/src/fdb5/toc/FileSpace.cc
+++ b/src/fdb5/toc/FileSpace.cc
@@ -59,7 +59,17 @@ TocPath FileSpace::filesystem(const Config& config, const Key& key, const eckit:
         throw DatabaseNotFoundException(oss.str(), Here());
     }
 
-    return TocPath{FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this) / db, ControlIdentifiers{}};
+    eckit::PathName selected = FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this);
+
+    // n.b. a database may be there already, in a root that is not visitable
+    ControlIdentifiers controlIdentifiers;
+    for (const Root& root : roots_) {
+        if (root.path() == selected) {
+            controlIdentifiers = root.controlIdentifiers();
+        }
+    }
+
+    return TocPath{selected / db, controlIdentifiers};
 }
 
 std::vector<eckit::PathName> FileSpace::enabled(const ControlIdentifier& controlIdentifier) const {
-- 
2.43.0


From 7d197f1249bdea0105e444b6221c2850a8a2da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 35/76] fix: partial requests find databases named by a dbnames
 rule with expressions on the other keywords

---
 src/fdb5/toc/RootManager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 2899ff7..aa7e393 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -80,7 +80,8 @@ public:
                 return false;
             }
 
-            if (!missing || i->second != missing) {
+            // n.b. with missing, an empty value stands for any (see namePartial)
+            if (!missing || (i->second != missing && !i->second.empty())) {
                 if (!j->second.match(i->second)) {
                     return false;
                 }
-- 
2.43.0


From a82fc295516bd36099c0210ecc15d6a66d24475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 36/76] fix: a field handle can be opened again after it was
 read to the end

---
 src/fdb5/io/FieldHandle.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/io/FieldHandle.cc b/src/fdb5/io/FieldHandle.cc
index d4a3d23..54a9ba5 100644
--- a/src/fdb5/io/FieldHandle.cc
+++ b/src/fdb5/io/FieldHandle.cc
@@ -143,6 +143,7 @@ void FieldHandle::openCurrent() {
                 ss << "Error reading from " << *current_ << " - read " << read << ", expected " << currentSize;
                 throw eckit::ReadError(ss.str());
             }
+            current_->close();
             current_ = new eckit::MemoryHandle(buffer_, currentSize);
             current_->openForRead();
             currentMemoryHandle_ = true;
@@ -194,13 +195,15 @@ long FieldHandle::read(void* buffer, long length) {
 }
 
 void FieldHandle::close() {
-    if (currentIdx_ < datahandles_.size()) {
+    if (current_ && currentIdx_ < datahandles_.size()) {
         current_->close();
-        if (currentMemoryHandle_) {
-            delete current_;
-        }
-        current_ = nullptr;
     }
+    if (currentMemoryHandle_) {
+        delete current_;
+        currentMemoryHandle_ = false;
+    }
+    // no current handle, also if the last field has been read, so that this handle can be opened again
+    current_ = nullptr;
     currentIdx_ = datahandles_.size();
 }
 
-- 
2.43.0


From edbf5c152fc95e62187bd64f3bc8b4c6e43fc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 37/76] fix: reading a listing with deduplication keeps each
 element, not the last one

---
 src/fdb5/api/FDB.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index d5f914d..1a478f8 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -242,7 +242,7 @@ eckit::DataHandle* FDB::read(ListIterator& it, bool sorted) {
             ListElementDeduplicator deduplicator;
             metkit::hypercube::HyperCubePayloaded<ListElement> cube(cubeRequest, deduplicator);
             for (const auto& elem : elements) {
-                cube.add(elem.combinedKey().request(), el);
+                cube.add(elem.combinedKey().request(), elem);
             }
 
             if (cube.countVacant() > 0) {
-- 
2.43.0


From 26271a9ab5202714bb61947c464e136bdae90ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 38/76] fix: FDB_CACHE_TOCS_ON_READ=0 made every listing, purge
 and retrieval fail

---
 src/fdb5/toc/TocHandler.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 830d5fd..ff3d6a9 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1354,8 +1354,8 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
     // A record of all the index entries found (to process later)
     struct IndexEntry {
         size_t seqNo;
-        const TocRecord* datap;
-        size_t dataLen;
+        std::vector<unsigned char> payload;  // a copy: the TOC need not be cached in memory
+        unsigned int serialisationVersion;
         LocalPathName tocDirectoryName;  // May differ if using the overlay
     };
     std::vector<IndexEntry> indexEntries;
@@ -1365,9 +1365,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
     bool hideSubTocEntries = true;
     bool hideClearEntries = true;
     bool readMasked = false;
-    const TocRecord* pdata;
-    size_t dataLength;
-    while (readNext(*r, walkSubTocs, hideSubTocEntries, hideClearEntries, readMasked, &pdata, &dataLength)) {
+    while (readNext(*r, walkSubTocs, hideSubTocEntries, hideClearEntries, readMasked)) {
 
         eckit::MemoryStream s(&r->payload_[0], r->maxPayloadSize);
         std::string path;
@@ -1387,7 +1385,11 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                 break;
 
             case TocRecord::TOC_INDEX:
-                indexEntries.emplace_back(IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory()});
+                indexEntries.emplace_back(IndexEntry{
+                    indexEntries.size(),
+                    std::vector<unsigned char>(r->payload_,
+                                               r->payload_ + (r->header_.size_ - sizeof(TocRecord::Header))),
+                    r->header_.serialisationVersion_, currentDirectory()});
 
                 if (subTocs && subTocRead_) {
                     subTocs->insert(subTocRead_->tocPath());
@@ -1429,7 +1431,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                 for (int idx = i; idx < indexEntries.size(); idx += nthreads) {
 
                     const IndexEntry& entry = indexEntries[idx];
-                    eckit::MemoryStream s(entry.datap->payload_, entry.dataLen - sizeof(TocRecord::Header));
+                    eckit::MemoryStream s(entry.payload.data(), entry.payload.size());
                     LocalPathName path;
                     off_t offset;
                     std::string type;
@@ -1438,7 +1440,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                     s >> type;
                     LOG_DEBUG(debug, LibFdb5) << "TocRecord TOC_INDEX " << path << " - " << offset << std::endl;
                     tocindexes[entry.seqNo] =
-                        new TocIndex(s, entry.datap->header_.serialisationVersion_, entry.tocDirectoryName,
+                        new TocIndex(s, entry.serialisationVersion, entry.tocDirectoryName,
                                      entry.tocDirectoryName / path, offset, preloadBTree_);
                 }
             }));
@@ -1669,6 +1671,9 @@ DbStats TocHandler::stats() const {
 
 void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metadata, std::set<eckit::URI>& data) const {
 
+    openForRead();
+    TocHandlerCloser close(*this);
+
     if (!enumeratedMaskedEntries_) {
         populateMaskedEntriesList();
     }
@@ -1714,9 +1719,6 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     // Get the data files referenced by the masked indexes (those in subtocs are
     // referenced internally)
 
-    openForRead();
-    TocHandlerCloser close(*this);
-
     auto r = std::make_unique<TocRecord>(
         serialisationVersion_.used());  // allocate (large) TocRecord on heap not stack (MARS-779)
 
-- 
2.43.0


From 5a839e39b616e3f95c0044e253a31c79aa37dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 39/76] fix: after a restart of a store server a client could
 not read from it any more

RemoteStore::get memoises a store per endpoint and kept using its dead connection; the store held a reference to a
configuration that no longer existed, which reconnecting reads.
---
 src/fdb5/remote/client/RemoteStore.cc | 1 +
 src/fdb5/remote/client/RemoteStore.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5308eeb..ad4ef2d 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -482,6 +482,7 @@ RemoteStore& RemoteStore::get(const eckit::URI& uri) {
     const std::string& endpoint = uri.hostport();
     auto it = readStores_.find(endpoint);
     if (it != readStores_.end()) {
+        it->second->refreshConnection();
         return *(it->second);
     }
 
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 44369bc..67ca236 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -207,7 +207,7 @@ private:  // members
 
     Key dbKey_;
 
-    const Config& config_;
+    const Config config_;
 
     // @note This is a map of requestID:MessageQueue. At the point that a request is
     // complete, errored or otherwise killed, it needs to be removed from the map.
-- 
2.43.0


From 843b3a2c314bc30b1c7023de79af357900c66e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 40/76] fix: a client waited for ever when a store server
 refused a control message

Errors are sent on the data connection, where the client did not look for who waits for the answer. The server also
sent a second error for the same message, which closes the connection.
---
 src/fdb5/remote/client/ClientConnection.cc | 17 +++++++++++++++++
 src/fdb5/remote/client/ClientConnection.h  |  3 +++
 src/fdb5/remote/client/RemoteStore.cc      |  4 ++++
 src/fdb5/remote/server/CatalogueHandler.cc |  4 ++--
 src/fdb5/remote/server/ServerConnection.cc |  4 ++--
 src/fdb5/remote/server/StoreHandler.cc     |  4 ++--
 6 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index c75e32f..fac169b 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -349,6 +349,18 @@ void ClientConnection::failPendingRequests(const std::exception_ptr& eptr) {
     promises_.clear();
 }
 
+bool ClientConnection::failPendingRequest(uint32_t requestID, const Buffer& payload) {
+    std::lock_guard lock(promisesMutex_);
+    auto pp = promises_.find(requestID);
+    if (pp == promises_.end()) {
+        return false;
+    }
+    std::string msg(static_cast<const char*>(payload.data()), payload.size());
+    pp->second.set_exception(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
+    promises_.erase(pp);
+    return true;
+}
+
 void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
     std::string reason;
     try {
@@ -534,6 +546,11 @@ void ClientConnection::listeningDataThreadLoop() {
                     handled = client->handle(hdr.message, hdr.requestID, std::move(payload));
                 }
 
+                // n.b. errors are sent on the data connection, also those in answer to a control message
+                if (!handled && hdr.message == Message::Error) {
+                    handled = failPendingRequest(hdr.requestID, payload);
+                }
+
                 if (!handled) {
                     std::ostringstream ss;
                     if (hdr.message == Message::Error) {
diff --git a/src/fdb5/remote/client/ClientConnection.h b/src/fdb5/remote/client/ClientConnection.h
index 2c78205..c03f7f1 100644
--- a/src/fdb5/remote/client/ClientConnection.h
+++ b/src/fdb5/remote/client/ClientConnection.h
@@ -68,6 +68,9 @@ public:  // methods
 
     using Connection::valid;
 
+    // pass an error on to who waits for the answer to this request; false if nobody does
+    bool failPendingRequest(uint32_t requestID, const eckit::Buffer& payload);
+
 private:  // methods
 
     friend class ClientConnectionRouter;
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index ad4ef2d..5863781 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -443,6 +443,10 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
                 // goes out of scope in the worker thread).
                 messageQueues_.erase(iter);
             }
+            else {
+                // the error may be the answer to a control message
+                connection_->failPendingRequest(requestID, payload);
+            }
             return true;
         }
         default:
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 28cbfd8..aebbcf6 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -94,7 +94,7 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID,
@@ -172,7 +172,7 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 
diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index 6655c2f..e038294 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -110,7 +110,7 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -137,7 +137,7 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 RemoteConfiguration ServerConnection::availableFunctionality() const {
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index a616a8a..5bbfee0 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -69,7 +69,7 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -125,7 +125,7 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 3e79555011dcd77ac1f81177d35dc208427ffef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 41/76] fix: wiping a part of a remote database failed when a
 store holds only other data of it

Such a store is not told about the wipe, and refused to take part in it.
---
 src/fdb5/remote/client/RemoteStore.cc | 13 +++++++++++++
 src/fdb5/remote/client/RemoteStore.h  |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5863781..7e1d129 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -515,6 +515,8 @@ std::vector<eckit::URI> RemoteStore::getAuxiliaryURIs(const eckit::URI&, bool on
 
 void RemoteStore::finaliseWipeState(StoreWipeState& storeState, bool doit, bool unsafeWipeAll) {
 
+    wipeInProgress_ = false;
+
     if (storeState.includedDataURIs().empty()) {
         // Nothing to do
         return;
@@ -550,6 +552,8 @@ void RemoteStore::finaliseWipeState(StoreWipeState& storeState, bool doit, bool
     for (const auto& uri : missingURIs) {
         storeState.markAsMissing(uri);
     }
+
+    wipeInProgress_ = doit;
 }
 
 bool RemoteStore::doWipeUnknowns(const std::set<eckit::URI>& unknownURIs) const {
@@ -562,6 +566,11 @@ bool RemoteStore::doWipeUnknowns(const std::set<eckit::URI>& unknownURIs) const
 }
 
 bool RemoteStore::doWipeURIs(const StoreWipeState& wipeState) const {
+    if (!wipeInProgress_) {
+        // The store has nothing to delete, and does not know about the wipe
+        return true;
+    }
+
     eckit::Buffer sendBuf(256);
     eckit::ResizableMemoryStream s(sendBuf);
     s << dbKey_;
@@ -569,6 +578,10 @@ bool RemoteStore::doWipeURIs(const StoreWipeState& wipeState) const {
     return true;
 }
 void RemoteStore::doWipeEmptyDatabase() const {
+    if (!wipeInProgress_) {
+        return;
+    }
+
     // emptyDatabases_ will be accumulated on the server side.
     eckit::Buffer sendBuf(256);
     eckit::ResizableMemoryStream s(sendBuf);
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 67ca236..ce763b0 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -209,6 +209,9 @@ private:  // members
 
     const Config config_;
 
+    // the server has been told what it will be asked to delete
+    bool wipeInProgress_{false};
+
     // @note This is a map of requestID:MessageQueue. At the point that a request is
     // complete, errored or otherwise killed, it needs to be removed from the map.
     // The shared_ptr allows this removal to be asynchronous with the actual task
-- 
2.43.0


From 41636cb986f7343b5add7f04d68ea5fb58aa84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 42/76] fix: a wipe of a remote database repeated after a
 refused one left its data behind or was refused

---
 src/fdb5/remote/server/CatalogueHandler.cc | 4 ++--
 src/fdb5/remote/server/StoreHandler.cc     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index aebbcf6..081777a 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -247,8 +247,8 @@ struct WipeHelper : public BaseHelper<CatalogueWipeState> {
         if (doit_) {
             // Keep a local copy of the catalogue wipe state, awaiting an explicit doWipeURIs command from the client
 
-            // Expect this dbKey not to already be in progress
-            ASSERT(handler.wipesInProgress_.find(dbKey) == handler.wipesInProgress_.end());
+            // Forget what is left of a wipe of this database that the client has given up
+            handler.wipesInProgress_.erase(dbKey);
 
             handler.wipesInProgress_.emplace(
                 dbKey, CatalogueHandler::WipeInProgress{unsafeWipeAll_,
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index 5bbfee0..12345c5 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -476,7 +476,8 @@ void StoreHandler::finaliseWipeState(const uint32_t clientID, const uint32_t req
     // keep state for doWipeURIs
     if (doit) {
         ASSERT(!unsafeAll);  // Until Im explicitly told otherwise, we dont support unsafeAll on remote fdb.
-        wipesInProgress_.emplace(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
+        // n.b. replaces what is left of a wipe the client has given up
+        wipesInProgress_.insert_or_assign(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
     }
 }
 
-- 
2.43.0


From 1ddc72f39f1896c25897f84205999cacf63e7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 43/76] fix: null arguments of C interface functions crash
 instead of giving an error

---
 src/fdb5/api/fdb_c.cc | 47 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index a8a301d..28564d1 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -69,6 +69,7 @@ public:
 
         for (int i = 0; i < numValues; i++) {
             std::vector<std::string> result;
+            ASSERT(values[i]);
             parse(values[i], result);
             vv.insert(std::end(vv), std::begin(result), std::end(result));
         }
@@ -385,20 +386,32 @@ int fdb_set_failure_handler(fdb_failure_handler_t handler, void* context) {
 }
 
 int fdb_version(const char** version) {
-    return wrapApiFunction([version] { (*version) = fdb5_version_str(); });
+    return wrapApiFunction([version] {
+        ASSERT(version);
+        (*version) = fdb5_version_str();
+    });
 }
 
 int fdb_vcs_version(const char** sha1) {
-    return wrapApiFunction([sha1] { (*sha1) = fdb5_git_sha1(); });
+    return wrapApiFunction([sha1] {
+        ASSERT(sha1);
+        (*sha1) = fdb5_git_sha1();
+    });
 }
 
 
 int fdb_new_handle(fdb_handle_t** fdb) {
-    return wrapApiFunction([fdb] { *fdb = new fdb_handle_t(); });
+    return wrapApiFunction([fdb] {
+        ASSERT(fdb);
+        *fdb = new fdb_handle_t();
+    });
 }
 
 int fdb_new_handle_from_yaml(fdb_handle_t** fdb, const char* system_config, const char* user_config) {
     return wrapApiFunction([fdb, system_config, user_config] {
+        ASSERT(fdb);
+        ASSERT(system_config);
+        ASSERT(user_config);
         Config cfg{YAMLConfiguration(std::string(system_config)), YAMLConfiguration(std::string(user_config))};
         cfg.set("configSource", "yaml");
         cfg.expandConfig();
@@ -567,7 +580,10 @@ int fdb_delete_handle(fdb_handle_t* fdb) {
 /** ancillary functions for creating/destroying FDB objects */
 
 int fdb_new_key(fdb_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_key_t();
+    });
 }
 int fdb_key_add(fdb_key_t* key, const char* param, const char* value) {
     return wrapApiFunction([key, param, value] {
@@ -586,7 +602,10 @@ int fdb_delete_key(fdb_key_t* key) {
 }
 
 int fdb_new_request(fdb_request_t** req) {
-    return wrapApiFunction([req] { *req = new fdb_request_t("retrieve"); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        *req = new fdb_request_t("retrieve");
+    });
 }
 int fdb_request_add(fdb_request_t* req, const char* param, const char* values[], int numValues) {
     return wrapApiFunction([req, param, values, numValues] {
@@ -600,11 +619,16 @@ int fdb_request_get(fdb_request_t* req, const char* param, char** values[], size
     return wrapApiFunction([req, param, values, numValues] {
         ASSERT(req);
         ASSERT(param);
+        ASSERT(values);
+        ASSERT(numValues);
         *numValues = req->values(param, values);
     });
 }
 int fdb_expand_request(fdb_request_t* req) {
-    return wrapApiFunction([req] { req->expand(); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        req->expand();
+    });
 }
 int fdb_delete_request(fdb_request_t* req) {
     return wrapApiFunction([req] {
@@ -643,7 +667,10 @@ int fdb_delete_listiterator(fdb_listiterator_t* it) {
 }
 
 int fdb_new_splitkey(fdb_split_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_split_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_split_key_t();
+    });
 }
 
 int fdb_splitkey_next_metadata(fdb_split_key_t* it, const char** key, const char** value, size_t* level) {
@@ -666,7 +693,10 @@ int fdb_delete_splitkey(fdb_split_key_t* key) {
 }
 
 int fdb_new_datareader(fdb_datareader_t** dr) {
-    return wrapApiFunction([dr] { *dr = new fdb_datareader_t(); });
+    return wrapApiFunction([dr] {
+        ASSERT(dr);
+        *dr = new fdb_datareader_t();
+    });
 }
 int fdb_datareader_open(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([dr, size] {
@@ -714,6 +744,7 @@ int fdb_datareader_read(fdb_datareader_t* dr, void* buf, long count, long* read)
 int fdb_datareader_size(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([=] {
         ASSERT(dr);
+        ASSERT(size);
         *size = dr->size();
     });
 }
-- 
2.43.0


From a2e4f905047d4b1b0f5ab1cebc64a2d2831961f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 44/76] fix: the keys of a list element in the C interface
 ended at a level without keywords

---
 src/fdb5/api/fdb_c.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index 28564d1..b7188f4 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -103,17 +103,19 @@ struct fdb_split_key_t {
     }
 
     auto operator++() -> fdb_split_key_t& {
+        ASSERT_MSG(keys_, "keys are missing!");
+
         /// @todo the following "if" is an unfortunate consequence of a flaw in this iterator
         if (level_ == keys_->end()) {
             level_ = keys_->begin();
             curr_ = level_->begin();
-            return *this;
         }
-        if (curr_ != level_->end()) {
+        else if (curr_ != level_->end()) {
             ++curr_;
-            if (curr_ == level_->end() && level_ != keys_->end() - 1) {
-                curr_ = (++level_)->begin();
-            }
+        }
+        // the key of any level may be empty
+        while (curr_ == level_->end() && level_ != keys_->end() - 1) {
+            curr_ = (++level_)->begin();
         }
         return *this;
     }
-- 
2.43.0


From b18b1f7941df0c38f846933fd33f7065947fe326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 45/76] fix: printing a key decoded from damaged data recursed
 without end

---
 src/fdb5/database/BaseKey.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/database/BaseKey.cc b/src/fdb5/database/BaseKey.cc
index f8360ff..97a3e2d 100644
--- a/src/fdb5/database/BaseKey.cc
+++ b/src/fdb5/database/BaseKey.cc
@@ -153,6 +153,9 @@ void BaseKey::decode(eckit::Stream& stream) {
     for (std::size_t i = 0; i < size; ++i) {
         stream >> keyword;
         stream >> value;
+        if (keys_.find(keyword) == keys_.end()) {
+            throw eckit::BadValue("Encoded key names keyword [" + keyword + "] and has no value for it", Here());
+        }
         names_.push_back(keyword);
     }
 }
-- 
2.43.0


From 5b3e37ab09c69f8826d5ec9708c9721f07ddb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 46/76] fix: a damaged size of a record in a table of contents
 made readers write beyond their buffer

---
 src/fdb5/toc/TocHandler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index ff3d6a9..ddae20f 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -527,6 +527,12 @@ bool TocHandler::readNextInternal(TocRecord& r, const TocRecord** data, size_t*
         throw;
     }
 
+    if (r.header_.size_ < sizeof(TocRecord::Header) || r.header_.size_ > sizeof(TocRecord::Header) + TocRecord::maxPayloadSize) {
+        std::ostringstream oss;
+        oss << "Invalid record size " << r.header_.size_ << " in " << tocPath_;
+        throw SeriousBug(oss.str(), Here());
+    }
+
     try {
         long len = proxy.read(&r.payload_, r.header_.size_ - sizeof(TocRecord::Header));
         ASSERT(size_t(len) == r.header_.size_ - sizeof(TocRecord::Header));
-- 
2.43.0


From 4d86055ac4c8d002eecd681a59e342e2fdb759d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 47/76] fix: a damaged encoded object without its inner object
 was accepted and a null pointer dereferenced

---
 src/fdb5/api/helpers/ListElement.cc        |  1 +
 src/fdb5/api/helpers/StatsIterator.cc      | 14 ++++++++++++--
 src/fdb5/remote/client/RemoteStore.cc      |  1 +
 src/fdb5/remote/server/CatalogueHandler.cc |  1 +
 src/fdb5/remote/server/StoreHandler.cc     |  1 +
 src/fdb5/rules/Predicate.cc                |  1 +
 src/fdb5/rules/Rule.cc                     |  1 +
 7 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/api/helpers/ListElement.cc b/src/fdb5/api/helpers/ListElement.cc
index b4a45a5..17b5d13 100644
--- a/src/fdb5/api/helpers/ListElement.cc
+++ b/src/fdb5/api/helpers/ListElement.cc
@@ -51,6 +51,7 @@ ListElement::ListElement(eckit::Stream& stream) {
 
     if (!keyParts_[2].empty()) {
         loc_.reset(eckit::Reanimator<FieldLocation>::reanimate(stream));
+        ASSERT(loc_);
     }
     stream >> timestamp_;
 }
diff --git a/src/fdb5/api/helpers/StatsIterator.cc b/src/fdb5/api/helpers/StatsIterator.cc
index c88378e..48e2820 100644
--- a/src/fdb5/api/helpers/StatsIterator.cc
+++ b/src/fdb5/api/helpers/StatsIterator.cc
@@ -23,9 +23,19 @@ StatsElement::StatsElement(const IndexStats& iStats, const DbStats& dbStats) :
     indexStatistics(iStats), dbStatistics(dbStats) {}
 
 
+namespace {
+
+template <class T>
+T* decodeContent(eckit::Stream& s) {
+    T* content = eckit::Reanimator<T>::reanimate(s);
+    ASSERT(content);
+    return content;
+}
+
+}  // namespace
+
 StatsElement::StatsElement(eckit::Stream& s) :
-    indexStatistics(eckit::Reanimator<IndexStatsContent>::reanimate(s)),
-    dbStatistics(eckit::Reanimator<DbStatsContent>::reanimate(s)) {}
+    indexStatistics(decodeContent<IndexStatsContent>(s)), dbStatistics(decodeContent<DbStatsContent>(s)) {}
 
 
 void StatsElement::encode(eckit::Stream& s) const {
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 7e1d129..068c1ca 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -416,6 +416,7 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
                                 // indexing
             MemoryStream s(payload);
             std::unique_ptr<FieldLocation> location(eckit::Reanimator<FieldLocation>::reanimate(s));
+            ASSERT(location);
             if (defaultEndpoint().empty()) {
                 return locations_.location(requestID, std::move(location));
             }
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 081777a..75c03cc 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -515,6 +515,7 @@ void CatalogueHandler::archiveBlob(const uint32_t clientID, const uint32_t reque
     fdb5::Key datumKey(s);
 
     std::unique_ptr<FieldLocation> location(eckit::Reanimator<FieldLocation>::reanimate(s));
+    ASSERT(location);
 
     LOG_DEBUG_LIB(LibFdb5) << "CatalogueHandler::archiveBlob key: " << idxKey << datumKey
                            << "  location: " << location->uri() << std::endl;
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index 12345c5..4bfeb77 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -142,6 +142,7 @@ void StoreHandler::read(uint32_t clientID, uint32_t requestID, const eckit::Buff
     MemoryStream s(payload);
 
     std::unique_ptr<FieldLocation> location(eckit::Reanimator<FieldLocation>::reanimate(s));
+    ASSERT(location);
 
     LOG_DEBUG_LIB(LibFdb5) << "Queuing for read: " << requestID << " " << *location << std::endl;
 
diff --git a/src/fdb5/rules/Predicate.cc b/src/fdb5/rules/Predicate.cc
index d78233a..8cac1d1 100644
--- a/src/fdb5/rules/Predicate.cc
+++ b/src/fdb5/rules/Predicate.cc
@@ -35,6 +35,7 @@ Predicate::Predicate(std::string keyword, Matcher* matcher) : keyword_{std::move
 Predicate::Predicate(eckit::Stream& stream) {
     stream >> keyword_;
     matcher_.reset(eckit::Reanimator<Matcher>::reanimate(stream));
+    ASSERT(matcher_);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 45904e1..3e94cfb 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -165,6 +165,7 @@ void Rule::decode(eckit::Stream& stream) {
     predicates_.reserve(numPred);
     for (size_t i = 0; i < numPred; ++i) {
         predicates_.emplace_back(eckit::Reanimator<Predicate>::reanimate(stream));
+        ASSERT(predicates_.back());
     }
 }
 
-- 
2.43.0


From eaf02f87fbd6bc8ae83ccc72d0e288d8b6ace3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 48/76] fix: a damaged encoded schema with a keyword without
 default was accepted and read beyond its list

---
 src/fdb5/rules/MatchHidden.cc   | 4 ++++
 src/fdb5/rules/MatchOptional.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fdb5/rules/MatchHidden.cc b/src/fdb5/rules/MatchHidden.cc
index b514bc4..6b6525a 100644
--- a/src/fdb5/rules/MatchHidden.cc
+++ b/src/fdb5/rules/MatchHidden.cc
@@ -12,6 +12,8 @@
 #include <string>
 #include <utility>
 
+#include "eckit/exception/Exceptions.h"
+
 #include "fdb5/database/Key.h"
 #include "fdb5/rules/MatchHidden.h"
 #include "fdb5/types/TypesRegistry.h"
@@ -40,6 +42,8 @@ MatchHidden::MatchHidden(eckit::Stream& stream) : Matcher() {
         stream >> value;
         default_.push_back(value);
     }
+
+    ASSERT(!default_.empty());
 }
 
 void MatchHidden::encode(eckit::Stream& s) const {
diff --git a/src/fdb5/rules/MatchOptional.cc b/src/fdb5/rules/MatchOptional.cc
index fd105cc..fbb47e7 100644
--- a/src/fdb5/rules/MatchOptional.cc
+++ b/src/fdb5/rules/MatchOptional.cc
@@ -13,6 +13,8 @@
 
 #include "fdb5/rules/MatchOptional.h"
 
+#include "eckit/exception/Exceptions.h"
+
 #include "metkit/mars/MarsRequest.h"
 
 #include "fdb5/database/Key.h"
@@ -42,6 +44,8 @@ MatchOptional::MatchOptional(eckit::Stream& s) : Matcher() {
         s >> value;
         default_.push_back(value);
     }
+
+    ASSERT(!default_.empty());
 }
 
 void MatchOptional::encode(eckit::Stream& s) const {
-- 
2.43.0


From b9cf2c7295ab0d034127ed6679d20cd571d0facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 49/76] fix: a table of contents that leads back to itself made
 readers recurse until the stack was exhausted

---
 src/fdb5/toc/TocHandler.cc | 15 +++++++++++++++
 src/fdb5/toc/TocHandler.h  |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index ddae20f..6223bdb 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1495,6 +1495,19 @@ const eckit::LocalPathName& TocHandler::schemaPath() const {
     return schemaPath_;
 }
 
+void TocHandler::nestedIn(const TocHandler& parent) const {
+
+    // A (damaged) toc may lead back to itself
+    constexpr size_t maxDepth = 64;
+
+    depth_ = parent.depth_ + 1;
+    if (depth_ > maxDepth) {
+        std::ostringstream oss;
+        oss << "Subtocs nested too deeply in " << parent.tocPath_;
+        throw SeriousBug(oss.str(), Here());
+    }
+}
+
 void TocHandler::selectSubTocRead(const eckit::LocalPathName& path) const {
 
     auto it = subTocReadCache_.find(path);
@@ -1505,6 +1518,7 @@ void TocHandler::selectSubTocRead(const eckit::LocalPathName& path) const {
     }
 
     subTocRead_ = it->second.get();
+    subTocRead_->nestedIn(*this);
     subTocRead_->openForRead();
 }
 
@@ -1708,6 +1722,7 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
             // If this is a subtoc, then enumerate its contained indexes and data!
             if (uri.path().baseName().asString().substr(0, 4) == "toc.") {
                 TocHandler h(absPath, remapKey_);
+                h.nestedIn(*this);
 
                 h.enumerateMasked(metadata, data);
 
diff --git a/src/fdb5/toc/TocHandler.h b/src/fdb5/toc/TocHandler.h
index ebeca73..075ce26 100644
--- a/src/fdb5/toc/TocHandler.h
+++ b/src/fdb5/toc/TocHandler.h
@@ -234,6 +234,8 @@ private:  // methods
                   bool readMasked = false, const TocRecord** data = nullptr, size_t* length = nullptr,
                   eckit::LocalPathName* parentTocPath = nullptr) const;
 
+    void nestedIn(const TocHandler& parent) const;
+
     void selectSubTocRead(const eckit::LocalPathName& path) const;
 
     bool readNextInternal(TocRecord& r, const TocRecord** data = nullptr, size_t* length = nullptr) const;
@@ -274,6 +276,8 @@ private:  // members
 
     mutable bool enumeratedMaskedEntries_;
     mutable int numSubtocsRaw_;
+
+    mutable size_t depth_{0};  ///< Number of tocs through which this subtoc was reached
     mutable bool writeMode_;
 
     mutable bool dirty_;
-- 
2.43.0


From ed3bfd99c25b7f384286f5f4207511f475132591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 50/76] fix: comparing headers only reported differences in the
 lengths of the data as differences of headers

---
 src/fdb5/tools/compare/grib/Utils.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/tools/compare/grib/Utils.cc b/src/fdb5/tools/compare/grib/Utils.cc
index 2f8b554..f622296 100644
--- a/src/fdb5/tools/compare/grib/Utils.cc
+++ b/src/fdb5/tools/compare/grib/Utils.cc
@@ -37,7 +37,13 @@ const std::unordered_set<std::string>& mutableDataKeys() {
         "ccsdsBlockSize",      // ccsds
         "ccsdsRsi",            // ccsds
         "bitMapIndicator",     // bitmap
-        "bitmap"               // bitmap
+        "bitmap",              // bitmap
+        "totalLength",         // lengths of the message and of its bitmap and data sections: grib1, grib2
+        "dataFlag",            // grib1
+        "section3Length",      // grib1
+        "section4Length",      // grib1
+        "section6Length",      // grib2
+        "section7Length"       // grib2
     };
     return s;
 }
-- 
2.43.0


From 2bb3d0f3db5e32bbf812269fd2d89792353b59dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 51/76] fix: comparing GRIB1 messages by hash keys failed,
 their sections were taken to be numbered

---
 src/fdb5/tools/compare/grib/CompareBitwise.cc | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/fdb5/tools/compare/grib/CompareBitwise.cc b/src/fdb5/tools/compare/grib/CompareBitwise.cc
index c91b9a3..8611629 100644
--- a/src/fdb5/tools/compare/grib/CompareBitwise.cc
+++ b/src/fdb5/tools/compare/grib/CompareBitwise.cc
@@ -56,21 +56,19 @@ GribHeaderInfo parseGribHeader(const uint8_t* buf, std::size_t size) {
         total_len = readU24Be(buf + 4);
         offset = 8;  // Section 0 length
 
-        // Sections 1–3 (walk until section 4)
-        while (offset + 3 <= total_len) {
-            uint32_t sec_len = readU24Be(buf + offset);
-            uint8_t sec_num = buf[offset + 3];
-
-            if (sec_len == 0) {
-                throw std::runtime_error("Invalid GRIB1 section length");
+        // Sections 1-3. GRIB1 sections are not numbered: the flags in section 1 tell which of the optional grid
+        // description (2) and bitmap (3) sections precede the data section (4)
+        if (size >= 16 && offset + 8 <= total_len) {
+            const uint8_t flags = buf[offset + 7];
+            offset += readU24Be(buf + offset);
+            for (uint8_t flag : {0x80, 0x40}) {
+                if ((flags & flag) && offset + 3 <= total_len) {
+                    offset += readU24Be(buf + offset);
+                }
             }
-
-            if (sec_num == 4) {
-                // Binary Data Section → header ends here
+            if (offset + 3 <= total_len) {
                 return {offset, total_len, edition};
             }
-
-            offset += sec_len;
         }
 
         throw std::runtime_error("GRIB1 data section not found");
-- 
2.43.0


From 86cc56fabe37e091c7d61000543e9974e2c9e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 52/76] fix: equal messages without an optional section were
 reported as not bit-identical

---
 src/fdb5/tools/compare/grib/CompareBitwise.cc | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/tools/compare/grib/CompareBitwise.cc b/src/fdb5/tools/compare/grib/CompareBitwise.cc
index 8611629..37b8a00 100644
--- a/src/fdb5/tools/compare/grib/CompareBitwise.cc
+++ b/src/fdb5/tools/compare/grib/CompareBitwise.cc
@@ -183,23 +183,20 @@ CompareResult bitComparison(const uint8_t* buffer1, const uint8_t* buffer2, size
         eckit::Log::error() << "[GRIB COMPARISON MISMATCH] Unknown Grib edition number " << editionnumber1 << std::endl;
         return CompareResult::OtherMismatch;
     }
-    // Determine number of sections based on the edition number 1 or 2
-    int numSections = (editionnumber1 == 1) ? 4 : 7;
-
-    // Process sections based on edition
-    for (int i = 0; i < numSections; ++i) {
+    // Process the sections, some of which are optional, until the final 7777. The last of them is the data section
+    const size_t end = length - 4;
+    for (int i = 0; offset < end; ++i) {
         // Read section length
         uint32_t sectionLength1 = 0;
         uint32_t sectionLength2 = 0;
 
-        const auto errCode = i < (numSections - 1) ? CompareResult::OtherMismatch : CompareResult::DataSectionMismatch;
         if (editionnumber1 == 1) {
             // Grib 1 Read 3 byte section length at the beginning of each section
             if (offset + 3 > length) {
                 eckit::Log::error()
                     << "[GRIB COMPARISON MISMATCH] Unexpected end of buffer while reading section length for section "
                     << i + 1 << std::endl;
-                return errCode;
+                return CompareResult::OtherMismatch;
             }
             sectionLength1 = readU24Be(buffer1 + offset);
             sectionLength2 = readU24Be(buffer2 + offset);
@@ -210,11 +207,18 @@ CompareResult bitComparison(const uint8_t* buffer1, const uint8_t* buffer2, size
                 eckit::Log::error()
                     << "[GRIB COMPARISON MISMATCH] Unexpected end of buffer while reading section length for section "
                     << i + 1 << std::endl;
-                return errCode;
+                return CompareResult::OtherMismatch;
             }
             sectionLength1 = readU32Be(buffer1 + offset);
             sectionLength2 = readU32Be(buffer2 + offset);
         }
+        if (sectionLength1 == 0) {
+            eckit::Log::info() << "[GRIB COMPARISON MISMATCH] Corrupted grib - section " << i + 1 << " is empty"
+                               << std::endl;
+            return CompareResult::OtherMismatch;
+        }
+        const auto errCode =
+            offset + sectionLength1 == end ? CompareResult::DataSectionMismatch : CompareResult::OtherMismatch;
         if (sectionLength1 != sectionLength2) {
             eckit::Log::info() << "[GRIB COMPARISON MISMATCH] The section " << i + 1
                                << " length parameter differs between the grib messages " << std::endl;
-- 
2.43.0


From a39ac395baf91096211d542dfa2584d40f8b627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 53/76] fix: messages of different disciplines were reported as
 bit-identical

---
 src/fdb5/tools/compare/grib/CompareBitwise.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fdb5/tools/compare/grib/CompareBitwise.cc b/src/fdb5/tools/compare/grib/CompareBitwise.cc
index 37b8a00..93bf4ac 100644
--- a/src/fdb5/tools/compare/grib/CompareBitwise.cc
+++ b/src/fdb5/tools/compare/grib/CompareBitwise.cc
@@ -183,6 +183,12 @@ CompareResult bitComparison(const uint8_t* buffer1, const uint8_t* buffer2, size
         eckit::Log::error() << "[GRIB COMPARISON MISMATCH] Unknown Grib edition number " << editionnumber1 << std::endl;
         return CompareResult::OtherMismatch;
     }
+    // The indicator section: the length and the edition are the same
+    if (std::memcmp(buffer1, buffer2, offset) != 0) {
+        eckit::Log::info() << "[GRIB COMPARISON MISMATCH] Memory comparison failed in section 0" << std::endl;
+        return CompareResult::OtherMismatch;
+    }
+
     // Process the sections, some of which are optional, until the final 7777. The last of them is the data section
     const size_t end = length - 4;
     for (int i = 0; offset < end; ++i) {
-- 
2.43.0


From f4e6b9fedb3d8e17d8eb37120d418362587efa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 54/76] fix: comparing GRIB1 messages without a bitmap by hash
 keys failed

---
 src/fdb5/tools/compare/grib/CompareHash.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fdb5/tools/compare/grib/CompareHash.cc b/src/fdb5/tools/compare/grib/CompareHash.cc
index 604bfdc..ad00a5d 100644
--- a/src/fdb5/tools/compare/grib/CompareHash.cc
+++ b/src/fdb5/tools/compare/grib/CompareHash.cc
@@ -62,6 +62,14 @@ CompareResult compareMd5sums(const metkit::codes::CodesHandle& h1, const metkit:
     }
 
     for (const auto& value : makeGribMD5Sections(gribEdition1)) {
+        // The bitmap section of a grib1 message is optional
+        if (h1.isDefined(value) != h2.isDefined(value)) {
+            return CompareResult::OtherMismatch;
+        }
+        if (!h1.isDefined(value)) {
+            continue;
+        }
+
         auto md5HashValueRef = h1.getString(value);
         auto md5HashValueTest = h2.getString(value);
 
-- 
2.43.0


From e995079495b7bf27b199248fd74f403d8e0d25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 55/76] fix: comparing ignored only fields with all of the
 given key value pairs, not with any of them

---
 src/fdb5/tools/compare/common/Types.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fdb5/tools/compare/common/Types.cc b/src/fdb5/tools/compare/common/Types.cc
index 0ab2546..2222401 100644
--- a/src/fdb5/tools/compare/common/Types.cc
+++ b/src/fdb5/tools/compare/common/Types.cc
@@ -229,14 +229,15 @@ void Result::update(const Result& other) {
 //---------------------------------------------------------------------------------------------------------------------
 
 
-bool isSubset(const fdb5::Key& a, const fdb5::Key& b) {
-    for (const auto& kv : a) {
-        auto [it, isValid] = b.find(kv.first);
-        if (!isValid || it->second != kv.second) {
-            return false;
+/// @returns true if any of the key-value pairs is contained in the key
+bool containsAny(const fdb5::Key& pairs, const fdb5::Key& key) {
+    for (const auto& kv : pairs) {
+        auto [it, isValid] = key.find(kv.first);
+        if (isValid && it->second == kv.second) {
+            return true;
         }
     }
-    return true;
+    return false;
 }
 
 
@@ -248,7 +249,7 @@ DataIndex assembleCompareMap(fdb5::FDB& fdb, const fdb5::FDBToolRequest& req, co
 
     while (list.next(elem)) {
         fdb5::Key km = elem.combinedKey();
-        if (ignore.empty() || !isSubset(ignore, km)) {
+        if (!containsAny(ignore, km)) {
             out.emplace(km, elem);
         }
     }
-- 
2.43.0


From c9f45052af7a513abe07add738ea3e5c6285152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 56/76] fix: building a view wrote out of bounds for parts with
 no axes or too few of them

---
 src/chunked_data_view/ChunkedDataViewBuilder.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/chunked_data_view/ChunkedDataViewBuilder.cc b/src/chunked_data_view/ChunkedDataViewBuilder.cc
index c939248..5cda45c 100644
--- a/src/chunked_data_view/ChunkedDataViewBuilder.cc
+++ b/src/chunked_data_view/ChunkedDataViewBuilder.cc
@@ -95,9 +95,12 @@ std::unique_ptr<ChunkedDataView> ChunkedDataViewBuilder::build() {
         throw eckit::UserError(
             "ChunkedDataViewBuilder::build: Must specify an extension axis if multiple parts are specified.");
     }
-    if (extensionAxisIndex_.has_value()) {
-        const auto& firstPartAxis = std::get<1>(parts_[0]);
-        if (extensionAxisIndex_.value() >= firstPartAxis.size()) {
+    for (const auto& part : parts_) {
+        const auto& partAxes = std::get<1>(part);
+        if (partAxes.empty()) {
+            throw eckit::UserError("ChunkedDataViewBuilder::build: Every part must have at least one axis.");
+        }
+        if (extensionAxisIndex_.has_value() && extensionAxisIndex_.value() >= partAxes.size()) {
             throw eckit::UserError("ChunkedDataViewBuilder::build: ExtensionAxis is not referring to a valid axis.");
         }
     }
-- 
2.43.0


From b919cd3c271267e003bf376aacf6fa7f66e7c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 57/76] fix: reading a chunk of a view with an axis of no
 keywords wrote out of bounds

---
 src/chunked_data_view/mapping/AxisMapper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chunked_data_view/mapping/AxisMapper.cc b/src/chunked_data_view/mapping/AxisMapper.cc
index 7e58d7a..c950694 100644
--- a/src/chunked_data_view/mapping/AxisMapper.cc
+++ b/src/chunked_data_view/mapping/AxisMapper.cc
@@ -19,6 +19,10 @@ std::vector<std::pair<Axis, AxisChunks>> AxisMapper::mapRequestToAxis(
     std::set<std::string> processedKeywords{};
     for (const auto& axis : axis_defintion) {
 
+        if (axis.keys.empty()) {
+            throw eckit::UserError("ViewPart::ViewPart:An axis needs at least one keyword");
+        }
+
         std::vector<Parameter> parameters{};
         parameters.reserve(axis.keys.size());
         for (const auto& key : axis.keys) {
-- 
2.43.0


From 19939c80d1f06a777d0c267380b4fa77cdf2ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 58/76] fix: a chunk of a view was given with missing fields if
 others were found more than once

---
 src/chunked_data_view/GribExtractor.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/chunked_data_view/GribExtractor.cc b/src/chunked_data_view/GribExtractor.cc
index bd958e6..7ef3a4a 100644
--- a/src/chunked_data_view/GribExtractor.cc
+++ b/src/chunked_data_view/GribExtractor.cc
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <map>
 #include <memory>
 #include <ostream>
 #include <sstream>
@@ -75,7 +76,8 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
                                 float* ptr, size_t len) const {
 
     bool iterator_empty = true;
-    size_t messagesWritten = 0;
+    size_t fieldsWritten = 0;
+    std::map<size_t, fdb5::Key> keys;  // of the fields at the positions of the buffer
 
     while (auto res = list_iterator->next()) {
 
@@ -89,6 +91,15 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
         const size_t msgIndex =
             index_mapping::computeBufferIndex(ctx.axes, key, ctx.partAxisOffset, ctx.bufferOffset, ctx.bufferExtent);
 
+        if (auto [found, isNew] = keys.emplace(msgIndex, key); !isNew) {
+            if (found->second == key) {
+                continue;  // The same field again, e.g. from a further FDB lane. The first one takes precedence.
+            }
+            std::ostringstream ss;
+            ss << "GribExtractor: Both " << found->second << " and " << key << " match the same position of the view.";
+            throw eckit::Exception(ss.str());
+        }
+
         eckit::message::Reader reader(*data_handle);
         eckit::message::Message msg{};
 
@@ -96,7 +107,13 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
         const auto end = copyInto + ctx.layout.countValues;
         ASSERT(end - ptr <= len);
 
+        size_t messages = 0;
         while ((msg = reader.next())) {
+            if (++messages > 1) {
+                std::ostringstream ss;
+                ss << "GribExtractor: More than one GRIB message found for key: " << key;
+                throw eckit::Exception(ss.str());
+            }
             if (const auto size = msg.getSize("values"); size != ctx.layout.countValues) {
                 std::ostringstream ss;
                 ss << "GribExractor: Unexpected field size found in GRIB message for key: " << key
@@ -109,7 +126,7 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
                 const auto gribMissing = static_cast<float>(msg.getDouble("missingValue"));
                 std::replace(copyInto, copyInto + ctx.layout.countValues, gribMissing, fillValue_);
             }
-            messagesWritten++;
+            fieldsWritten++;
         }
     }
 
@@ -118,7 +135,7 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
             "GribExtractor: Empty iterator for request. Is the request correctly specified?");
     }
 
-    return messagesWritten;
+    return fieldsWritten;
 }
 
 size_t GribExtractor::extractInto(const ViewPart& part, const ChunkedDataViewPartBoundingBox& chunkBoundingBox,
-- 
2.43.0


From 1fc24cd8fdf266f344b5ec8a932772b9df036aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 59/76] fix: a view of parts with different field sizes gave
 misplaced values

---
 src/chunked_data_view/ChunkedDataViewImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chunked_data_view/ChunkedDataViewImpl.cc b/src/chunked_data_view/ChunkedDataViewImpl.cc
index 2e11627..44b1dbd 100644
--- a/src/chunked_data_view/ChunkedDataViewImpl.cc
+++ b/src/chunked_data_view/ChunkedDataViewImpl.cc
@@ -81,6 +81,10 @@ ChunkedDataViewImpl::ChunkedDataViewImpl(std::vector<std::pair<ViewPart, std::sh
         size_t extensionOnExtensionAxis = 0;
 
         for (const auto& [part, _] : parts_) {
+            if (part.layout().countValues != first_part.layout().countValues) {
+                throw eckit::UserError(
+                    "ChunkedDataViewImpl: Field size mismatch. The fields of all parts have to be of equal size.");
+            }
             for (size_t idx = 0; idx < chunkedDataViewShape_.size(); ++idx) {
                 if (idx == extensionAxisIndex_) {
                     extensionOnExtensionAxis += part.extension()[idx];
-- 
2.43.0


From b7ba4985973e562002ea136b6a1539cb67b265b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 60/76] fix: reading from a data handle in Python padded the
 last bytes with zeros, so that copies were corrupted

---
 src/pyfdb/pyfdb_type.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pyfdb/pyfdb_type.py b/src/pyfdb/pyfdb_type.py
index b755d93..15c4876 100644
--- a/src/pyfdb/pyfdb_type.py
+++ b/src/pyfdb/pyfdb_type.py
@@ -251,7 +251,7 @@ class DataHandle:
         ----------
         `len`: int
             Number of bytes to read. Defaults to -1, which reads the entire buffer.
-            If the requested size exceeds the available data, the result is zero-padded to match the requested size.
+            If the requested size exceeds the available data, the result is as long as the available data, and empty at the end.
 
         Returns
         -------
@@ -285,10 +285,7 @@ class DataHandle:
         buffer = bytearray(array_size)
         read_bytes = self.dataHandle.read(buffer)
 
-        if read_bytes == 0:
-            return b""
-
-        return bytes(buffer)
+        return bytes(buffer[:read_bytes])
 
     def readinto(self, buffer: memoryview) -> int:
         """
-- 
2.43.0


From 7ae66bcd59d97b4268f224463ba8105eade8b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 61/76] fix: data handles in Python were read into read-only
 buffers, and beyond the bounds of buffers that are not contiguous

---
 src/pyfdb_bindings/bindings.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyfdb_bindings/bindings.cc b/src/pyfdb_bindings/bindings.cc
index 234367e..31c0fed 100644
--- a/src/pyfdb_bindings/bindings.cc
+++ b/src/pyfdb_bindings/bindings.cc
@@ -181,8 +181,14 @@ PYBIND11_MODULE(pyfdb_bindings, m) {
         .def("size", [](eckit::DataHandle& data_handle) { return static_cast<long long>(data_handle.size()); })
         .def("read",
              [](eckit::DataHandle& data_handle, py::buffer& buffer) {
-                 py::buffer_info info = buffer.request();
-                 return data_handle.read(info.ptr, info.size);
+                 py::buffer_info info = buffer.request(true);
+                 py::ssize_t stride = info.itemsize;
+                 for (auto dim = info.ndim; dim-- > 0; stride *= info.shape[dim]) {
+                     if (info.shape[dim] > 1 && info.strides[dim] != stride) {
+                         throw py::buffer_error("DataHandle: the buffer to read into has to be contiguous");
+                     }
+                 }
+                 return data_handle.read(info.ptr, info.size * info.itemsize);
              })
         .def("__repr__", [](eckit::DataHandle& data_handle) {
             std::stringstream buf;
-- 
2.43.0


From 8e18ee623f022ae460627deaa38bbec61a735ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 62/76] fix: a user configuration was ignored when the
 configuration is the default one

---
 src/fdb5/config/Config.cc | 2 +-
 src/pyfdb/pyfdb.py        | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/config/Config.cc b/src/fdb5/config/Config.cc
index 0366e5a..c294c27 100644
--- a/src/fdb5/config/Config.cc
+++ b/src/fdb5/config/Config.cc
@@ -90,7 +90,7 @@ Config Config::expandConfig() const {
         std::string s(config_str);
         Config cfg{YAMLConfiguration(s)};
         cfg.set("configSource", "environment");
-        if (!cfg.userConfig_) {
+        if (userConfig_) {
             cfg.userConfig_ = userConfig_;
         }
         return cfg;
diff --git a/src/pyfdb/pyfdb.py b/src/pyfdb/pyfdb.py
index 5794c81..bdff885 100644
--- a/src/pyfdb/pyfdb.py
+++ b/src/pyfdb/pyfdb.py
@@ -110,6 +110,10 @@ class FDB:
         elif config is not None:
             internal_config = Config(config, None)
             self.FDB = _FDB(internal_config)
+        elif user_config is not None:
+            # An empty configuration stands for the default one
+            internal_config = Config("{}", user_config)
+            self.FDB = _FDB(internal_config)
         else:
             self.FDB = _FDB()
 
-- 
2.43.0


From 3e9dbda25a0f497c24c3579079a52caab3a19f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 63/76] fix: get() of axes in Python found none of them

---
 src/pyfdb/pyfdb_iterator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pyfdb/pyfdb_iterator.py b/src/pyfdb/pyfdb_iterator.py
index 2af06e2..e625a41 100644
--- a/src/pyfdb/pyfdb_iterator.py
+++ b/src/pyfdb/pyfdb_iterator.py
@@ -7,7 +7,7 @@
 # does it submit to any jurisdiction.
 
 import logging
-from collections.abc import Collection, ItemsView, Iterator, KeysView, ValuesView
+from collections.abc import Collection, ItemsView, Iterator, KeysView, Mapping, ValuesView
 from enum import IntEnum, auto
 from typing import Optional
 
@@ -32,7 +32,6 @@ from pyfdb._internal import (
 from pyfdb._internal import (
     WipeElementType as _WipeElementType,
 )
-from pyfdb._internal.pyfdb_internal import InternalMarsSelection
 from pyfdb.pyfdb_type import URI, ControlIdentifier, DataHandle, MarsSelection, UserInputMapper
 
 logger = logging.getLogger(__name__)
@@ -384,7 +383,7 @@ class ControlElement:
         return f"ControlElement(control_identifiers={self.controlIdentifiers()}, key={self.key()}, location={self.location()})"
 
 
-class IndexAxis(InternalMarsSelection):
+class IndexAxis(Mapping[str, Collection[str]]):
     """
     `IndexAxis` class representing axes and their extent. The class implements all Dictionary
     functionalities. Key are the corresponding FDB keys (axes) and values are the values defining the extent
-- 
2.43.0


From 64946f96e281b37ccce92c82a5f2ee35494e0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 64/76] fix: text archived through Python was truncated by the
 bytes its characters take beyond one

---
 src/pyfdb/pyfdb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyfdb/pyfdb.py b/src/pyfdb/pyfdb.py
index bdff885..c0b7239 100644
--- a/src/pyfdb/pyfdb.py
+++ b/src/pyfdb/pyfdb.py
@@ -160,6 +160,10 @@ class FDB:
         >>> fdb.archive(identifier=Identifier([("key-1", "value-1")]), data=filename.read_bytes())
         >>> fdb.flush() # Sync the archive call
         """
+        if isinstance(data, str):
+            # The length is counted in bytes, not in characters
+            data = data.encode()
+
         if identifier is None:
             self.FDB.archive(data, len(data))
         else:
-- 
2.43.0


From b148f679db61cfbdcb8a332a8b79df6076dfbf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 65/76] fix: Python gave truncated paths of data in directories
 with # or ? in their names

---
 src/pyfdb/pyfdb_type.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyfdb/pyfdb_type.py b/src/pyfdb/pyfdb_type.py
index 15c4876..f01a290 100644
--- a/src/pyfdb/pyfdb_type.py
+++ b/src/pyfdb/pyfdb_type.py
@@ -451,6 +451,11 @@ class URI:
     def __init__(self, uri: str | Path, scheme: str = "", allow_fragments=True) -> None:
         uri = uri.as_posix() if isinstance(uri, Path) else uri
 
+        if isinstance(uri, _URI) and str(uri) == uri.path():
+            # A plain path, which may hold characters that have a meaning in URIs
+            self._uri: parse.SplitResult = parse.SplitResult(scheme, "", uri.path(), "", "")
+            return
+
         self._uri: parse.SplitResult = parse.urlsplit(
             str(uri), scheme=scheme, allow_fragments=allow_fragments
         )
-- 
2.43.0


From 1ba5db0a4508573938073a28dcdcd5d141752a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 66/76] fix: axes in Python that are empty had values, none,
 for any key

---
 src/pyfdb_bindings/bindings.cc | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/pyfdb_bindings/bindings.cc b/src/pyfdb_bindings/bindings.cc
index 31c0fed..1f185be 100644
--- a/src/pyfdb_bindings/bindings.cc
+++ b/src/pyfdb_bindings/bindings.cc
@@ -226,21 +226,15 @@ PYBIND11_MODULE(pyfdb_bindings, m) {
              })
         .def("__getitem__",
              [](const fdb5::IndexAxis& index_axis, const std::string& key) {
-                 try {
-                     const auto& values = index_axis.values(key);
-                     return std::vector<std::string>{values.begin(), values.end()};
-                 }
-                 catch (const eckit::SeriousBug& serious_bug) {
-                     std::stringstream buf;
-                     buf << "Couldn't find key: " << key << " in IndexAxis.";
-                     throw py::key_error(buf.str());
-                 }
-                 // INFO:: Clang isn't able to derive the correct type, so we are catching the base
-                 catch (const eckit::Exception& serious_bug) {
+                 // NB: values() finds nothing for any key of an empty axis, without an error
+                 const auto& map = index_axis.map();
+                 const auto it = map.find(key);
+                 if (it == map.end()) {
                      std::stringstream buf;
                      buf << "Couldn't find key: " << key << " in IndexAxis.";
                      throw py::key_error(buf.str());
                  }
+                 return std::vector<std::string>{it->second.begin(), it->second.end()};
              })
         .def("keys",
              [](const fdb5::IndexAxis& index_axis) {
-- 
2.43.0


From 0be42c906d28d05d04f9ffd9ef63e2e0b1c618a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 67/76] fix: databases in object stores were searched for with
 the first configuration a process used

---
 src/fdb5/daos/DaosEngine.cc | 37 +++++++++++++++++++------------------
 src/fdb5/daos/DaosEngine.h  |  5 +----
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/fdb5/daos/DaosEngine.cc b/src/fdb5/daos/DaosEngine.cc
index 8dfcf33..5d3c54b 100644
--- a/src/fdb5/daos/DaosEngine.cc
+++ b/src/fdb5/daos/DaosEngine.cc
@@ -10,6 +10,8 @@
 
 #include "fdb5/daos/DaosEngine.h"
 
+#include <optional>
+
 #include "eckit/serialisation/MemoryStream.h"
 
 #include "fdb5/LibFdb5.h"
@@ -23,19 +25,18 @@ namespace fdb5 {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-void DaosEngine::configureDaos(const Config& config) const {
+eckit::LocalConfiguration DaosEngine::configureDaos(const Config& config) const {
 
-    if (daos_config_.has_value()) {
-        return;
-    }
+    /// @note: the engine is shared by all configurations in the process
 
-    daos_config_.emplace(eckit::LocalConfiguration());
+    eckit::LocalConfiguration daos_config;
     if (config.has("daos")) {
-        daos_config_.emplace(config.getSubConfiguration("daos"));
+        daos_config = config.getSubConfiguration("daos");
     }
-    if (daos_config_->has("client")) {
-        fdb5::DaosManager::instance().configure(daos_config_->getSubConfiguration("client"));
+    if (daos_config.has("client")) {
+        fdb5::DaosManager::instance().configure(daos_config.getSubConfiguration("client"));
     }
+    return daos_config;
 }
 
 std::string DaosEngine::name() const {
@@ -80,16 +81,16 @@ std::vector<eckit::URI> DaosEngine::visitableLocations(const Key& key, const Con
     ///   initialised. If owning a private instance of DaosCommon here, then the private members of
     ///   DaosCommon are not accessible from here
 
-    configureDaos(config);
+    const eckit::LocalConfiguration daos_config = configureDaos(config);
 
     std::string pool = "default";
     std::string root_cont = "root";
 
-    if (daos_config_->has("catalogue")) {
-        pool = daos_config_->getSubConfiguration("catalogue").getString("pool", pool);
+    if (daos_config.has("catalogue")) {
+        pool = daos_config.getSubConfiguration("catalogue").getString("pool", pool);
     }
-    if (daos_config_->has("catalogue")) {
-        root_cont = daos_config_->getSubConfiguration("catalogue").getString("root_cont", root_cont);
+    if (daos_config.has("catalogue")) {
+        root_cont = daos_config.getSubConfiguration("catalogue").getString("root_cont", root_cont);
     }
 
     pool = eckit::Resource<std::string>("fdbDaosCataloguePool;$FDB_DAOS_CATALOGUE_POOL", pool);
@@ -174,16 +175,16 @@ std::vector<URI> DaosEngine::visitableLocations(const metkit::mars::MarsRequest&
     ///   initialised. If owning a private instance of DaosCommon here, then the private members of
     ///   DaosCommon are not accessible from here
 
-    configureDaos(config);
+    const eckit::LocalConfiguration daos_config = configureDaos(config);
 
     std::string pool = "default";
     std::string root_cont = "root";
 
-    if (daos_config_->has("catalogue")) {
-        pool = daos_config_->getSubConfiguration("catalogue").getString("pool", pool);
+    if (daos_config.has("catalogue")) {
+        pool = daos_config.getSubConfiguration("catalogue").getString("pool", pool);
     }
-    if (daos_config_->has("catalogue")) {
-        root_cont = daos_config_->getSubConfiguration("catalogue").getString("root_cont", root_cont);
+    if (daos_config.has("catalogue")) {
+        root_cont = daos_config.getSubConfiguration("catalogue").getString("root_cont", root_cont);
     }
 
     pool = eckit::Resource<std::string>("fdbDaosCataloguePool;$FDB_DAOS_CATALOGUE_POOL", pool);
diff --git a/src/fdb5/daos/DaosEngine.h b/src/fdb5/daos/DaosEngine.h
index c41a051..3620242 100644
--- a/src/fdb5/daos/DaosEngine.h
+++ b/src/fdb5/daos/DaosEngine.h
@@ -13,8 +13,6 @@
 
 #pragma once
 
-#include <optional>
-
 #include "eckit/config/LocalConfiguration.h"
 
 #include "fdb5/database/Engine.h"
@@ -51,11 +49,10 @@ protected:  // methods
 
 private:  // methods
 
-    void configureDaos(const Config&) const;
+    eckit::LocalConfiguration configureDaos(const Config&) const;
 
 private:  // members
 
-    mutable std::optional<eckit::LocalConfiguration> daos_config_;
     fdb5::DaosOID catalogue_kv_{0, 0, DAOS_OT_KV_HASHED, OC_S1};  // take oclass from config
 };
 
-- 
2.43.0


From 6fdd5dc73308afd737d7513a9ba614705073659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 68/76] fix: the axes of databases in object stores lacked the
 keywords of fields

---
 src/fdb5/daos/DaosCatalogue.cc | 2 +-
 src/fdb5/daos/DaosIndex.cc     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/daos/DaosCatalogue.cc b/src/fdb5/daos/DaosCatalogue.cc
index c3259ee..f400b7a 100644
--- a/src/fdb5/daos/DaosCatalogue.cc
+++ b/src/fdb5/daos/DaosCatalogue.cc
@@ -166,7 +166,7 @@ std::vector<Index> DaosCatalogue::indexes(bool) const {
             /// @todo: the index_kv may exist even if it does not have the "key" key
         }
 
-        res.push_back(Index(new fdb5::DaosIndex(index_key.value(), *this, index_kv_name, false)));
+        res.push_back(Index(new fdb5::DaosIndex(index_key.value(), *this, index_kv_name, true)));
     }
 
     return res;
diff --git a/src/fdb5/daos/DaosIndex.cc b/src/fdb5/daos/DaosIndex.cc
index 833abad..8f56ba4 100644
--- a/src/fdb5/daos/DaosIndex.cc
+++ b/src/fdb5/daos/DaosIndex.cc
@@ -80,6 +80,11 @@ void DaosIndex::updateAxes() {
     /// - ensure axis kv exists (daos_obj_open)
     fdb5::DaosKeyValue index_kv{s, index_kv_name};
 
+    /// @note: an index without any field yet has no axes
+    if (!index_kv.has("axes")) {
+        return;
+    }
+
     int axis_names_max_len = 512;  /// @todo: take from config
     std::vector<char> axes_data((long)axis_names_max_len);
 
-- 
2.43.0


From a3928bd28d0d62606b831a4181da816c56866f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 69/76] fix: data in object stores were looked for in files
 when listed by a catalogue of files

---
 src/fdb5/toc/TocIndex.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocIndex.cc b/src/fdb5/toc/TocIndex.cc
index f30454b..27f6b39 100644
--- a/src/fdb5/toc/TocIndex.cc
+++ b/src/fdb5/toc/TocIndex.cc
@@ -176,8 +176,19 @@ public:
 
     void visit(const std::string& keyFingerprint, const FieldRef& ref) {
 
-        Field field(TocFieldLocation(uris_, ref), visitor_.indexTimestamp(), ref.details());
-        visitor_.visitDatum(field, keyFingerprint);
+        visitor_.visitDatum(Field(location(ref), visitor_.indexTimestamp(), ref.details()), keyFingerprint);
+    }
+
+private:
+
+    // n.b. as in TocIndex::get(): the store of the data need not be one of files
+    std::shared_ptr<const FieldLocation> location(const FieldRef& ref) const {
+        const eckit::URI uri = uris_.get(ref.uriId());
+        if (uri.scheme() == "file") {
+            return std::make_shared<TocFieldLocation>(uris_, ref);
+        }
+        return std::shared_ptr<const FieldLocation>(
+            FieldLocationFactory::instance().build(uri.scheme(), uri, ref.offset(), ref.length(), Key()));
     }
 };
 
-- 
2.43.0


From 35ce3c780591d05800c62d10a75991d454ba79ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 70/76] fix: a user configuration does not extend a
 configuration given in the environment, as the tests require

---
 src/fdb5/config/Config.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/config/Config.cc b/src/fdb5/config/Config.cc
index c294c27..0366e5a 100644
--- a/src/fdb5/config/Config.cc
+++ b/src/fdb5/config/Config.cc
@@ -90,7 +90,7 @@ Config Config::expandConfig() const {
         std::string s(config_str);
         Config cfg{YAMLConfiguration(s)};
         cfg.set("configSource", "environment");
-        if (userConfig_) {
+        if (!cfg.userConfig_) {
             cfg.userConfig_ = userConfig_;
         }
         return cfg;
-- 
2.43.0


From d0761a084a08c2e3d401ecf8a6797264ac146abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 71/76] fix: databases in object stores with overwritten fields
 could not be wiped

---
 src/fdb5/daos/DaosStore.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/daos/DaosStore.cc b/src/fdb5/daos/DaosStore.cc
index 5412f22..1956ce9 100644
--- a/src/fdb5/daos/DaosStore.cc
+++ b/src/fdb5/daos/DaosStore.cc
@@ -221,7 +221,13 @@ void DaosStore::finaliseWipeState(StoreWipeState& storeState, bool doit, bool un
         auto uri = fdb5::DaosName{cont.poolName(), cont.containerName(), oid}.URI();
         if (dataURIs.find(uri) == dataURIs.end() && safeURIs.find(uri) == safeURIs.end()) {
             // auxURIs.find(u) == auxURIs.end() &&
-            storeState.insertUnrecognised(uri);
+            if (oid.otype() == DAOS_OT_ARRAY_BYTE) {
+                /// @note: the array of a field that was overwritten, which is no longer indexed
+                storeState.insertAuxiliaryURI(uri);
+            }
+            else {
+                storeState.insertUnrecognised(uri);
+            }
         }
     }
 }
@@ -243,9 +249,9 @@ bool DaosStore::doWipeUnknowns(const std::set<eckit::URI>& unknownURIs) const {
 bool DaosStore::doWipeURIs(const StoreWipeState& wipeState) const {
     bool wipeAll = wipeState.safeURIs().empty();
 
-    // for (const auto& uri : wipeState.dataAuxiliaryURIs()) {
-    //     remove(uri, std::cout, std::cout, true);
-    // }
+    for (const auto& uri : wipeState.dataAuxiliaryURIs()) {
+        remove(uri, std::cout, std::cout, true);
+    }
 
     for (const auto& uri : wipeState.includedDataURIs()) {
         fdb5::DaosName name{uri};
-- 
2.43.0


From 349f3eb9a400388c478a26b1100523424ea811cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 72/76] fix: retrievals from object stores over several indexes
 missed fields, or found those of another index

---
 src/fdb5/daos/DaosCatalogueReader.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/daos/DaosCatalogueReader.cc b/src/fdb5/daos/DaosCatalogueReader.cc
index e611481..2052e13 100644
--- a/src/fdb5/daos/DaosCatalogueReader.cc
+++ b/src/fdb5/daos/DaosCatalogueReader.cc
@@ -40,9 +40,6 @@ bool DaosCatalogueReader::selectIndex(const Key& idxKey) {
         return true;
     }
 
-    /// @todo: shouldn't this be set only if found a matching index?
-    currentIndexKey_ = idxKey;
-
     if (indexes_.find(idxKey) == indexes_.end()) {
 
         fdb5::DaosKeyValueName catalogue_kv{pool_, db_cont_, catalogue_kv_};
@@ -81,6 +78,8 @@ bool DaosCatalogueReader::selectIndex(const Key& idxKey) {
     }
 
     current_ = indexes_[idxKey];
+    currentIndexKey_ = idxKey;
+    invalidateAxis();
 
     return true;
 }
-- 
2.43.0


From f8ca7c99b8ded1f54e1947adbfb1b11312d6df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 73/76] fix: an empty list of objects was read through an
 element it does not have

---
 src/dummy_daos/daos.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy_daos/daos.cc b/src/dummy_daos/daos.cc
index 96aa85f..8635267 100644
--- a/src/dummy_daos/daos.cc
+++ b/src/dummy_daos/daos.cc
@@ -1250,7 +1250,7 @@ int daos_oit_list(daos_handle_t oh, daos_obj_id_t* oids, uint32_t* oids_nr, daos
         fh.openForRead();
         {
             eckit::AutoClose closer(fh);
-            fh.read(&v[0], size);
+            fh.read(v.data(), size);
         }
 
         std::string oids{v.begin(), v.end()};
-- 
2.43.0


From 4f07b3cd6ba26feccb3d020d19b9782e09717a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 74/76] fix: fields with and without an optional keyword could
 not be retrieved from one index in an object store, nor its database be wiped

---
 src/fdb5/daos/DaosCatalogueReader.cc | 4 +---
 src/fdb5/daos/DaosCatalogueWriter.cc | 7 ++++---
 src/fdb5/daos/DaosIndex.cc           | 6 +++++-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fdb5/daos/DaosCatalogueReader.cc b/src/fdb5/daos/DaosCatalogueReader.cc
index 2052e13..d5c9ba5 100644
--- a/src/fdb5/daos/DaosCatalogueReader.cc
+++ b/src/fdb5/daos/DaosCatalogueReader.cc
@@ -125,9 +125,7 @@ bool DaosCatalogueReader::retrieve(const Key& key, Field& field) const {
     LOG_DEBUG_LIB(LibFdb5) << "Trying to retrieve key " << key << std::endl;
     LOG_DEBUG_LIB(LibFdb5) << "Scanning index " << current_.location() << std::endl;
 
-    if (!current_.mayContain(key)) {
-        return false;
-    }
+    /// @note: the axes do not tell whether there are fields that lack an optional keyword
 
     return current_.get(key, fdb5::Key(), field);
 }
diff --git a/src/fdb5/daos/DaosCatalogueWriter.cc b/src/fdb5/daos/DaosCatalogueWriter.cc
index 2b961db..bf68071 100644
--- a/src/fdb5/daos/DaosCatalogueWriter.cc
+++ b/src/fdb5/daos/DaosCatalogueWriter.cc
@@ -238,13 +238,14 @@ void DaosCatalogueWriter::archive(const Key& idxKey, const Key& datumKey,
         const std::string& keyword = i->first;
         const std::string& value = i->second;
 
+        /// @note: fields archived later may have the keywords that this one lacks
+        axisNames += sep + keyword;
+        sep = ",";
+
         if (value.length() == 0) {
             continue;
         }
 
-        axisNames += sep + keyword;
-        sep = ",";
-
         /// @note: obtain in-memory axis values. Not triggering retrieval from DAOS axes.
         /// @note: on first archive the in-memory axes will be empty and values() will return
         ///   empty sets. This is fine.
diff --git a/src/fdb5/daos/DaosIndex.cc b/src/fdb5/daos/DaosIndex.cc
index 8f56ba4..d6b423a 100644
--- a/src/fdb5/daos/DaosIndex.cc
+++ b/src/fdb5/daos/DaosIndex.cc
@@ -108,7 +108,11 @@ void DaosIndex::updateAxes() {
 
         /// @note: performed RPCs:
         /// - one or more kv list (daos_kv_list)
-        axes_.insert(name, axis_kv.keys());
+        /// @note: there are no values if no field has the keyword
+        const auto values = axis_kv.keys();
+        if (!values.empty()) {
+            axes_.insert(name, values);
+        }
     }
 
     axes_.sort();
-- 
2.43.0


From a867a299faa81dbebc28c50ae73faaa64e7a53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 75/76] fix: the wipe of a database with its catalogue in an
 object store and its data in files failed at files it does not know

---
 src/fdb5/daos/DaosCatalogue.cc | 7 +++++--
 src/fdb5/daos/DaosStore.cc     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/daos/DaosCatalogue.cc b/src/fdb5/daos/DaosCatalogue.cc
index f400b7a..1d2d529 100644
--- a/src/fdb5/daos/DaosCatalogue.cc
+++ b/src/fdb5/daos/DaosCatalogue.cc
@@ -104,10 +104,13 @@ void DaosCatalogue::loadSchema() {
 
 bool DaosCatalogue::uriBelongs(const eckit::URI& uri) const {
 
+    if (uri.scheme() != type()) {
+        return false;
+    }
+
     fdb5::DaosName n{uri};
 
-    bool result = (uri.scheme() == type());
-    result = result && (n.poolName() == pool_);
+    bool result = (n.poolName() == pool_);
     result = result && (n.containerName().rfind(db_cont_, 0) == 0);
     result = result && (n.OID().otype() == DAOS_OT_KV_HASHED);
 
diff --git a/src/fdb5/daos/DaosStore.cc b/src/fdb5/daos/DaosStore.cc
index 1956ce9..e258ab7 100644
--- a/src/fdb5/daos/DaosStore.cc
+++ b/src/fdb5/daos/DaosStore.cc
@@ -44,10 +44,13 @@ eckit::URI DaosStore::uri(const eckit::URI& dataURI) {
 
 bool DaosStore::uriBelongs(const eckit::URI& uri) const {
 
+    if (uri.scheme() != type()) {
+        return false;
+    }
+
     fdb5::DaosName n{uri};
 
-    bool result = (uri.scheme() == type());
-    result = result && (n.poolName() == pool_);
+    bool result = (n.poolName() == pool_);
     result = result && (n.containerName().rfind(db_cont_, 0) == 0);
     result = result && (n.OID().otype() == DAOS_OT_ARRAY || n.OID().otype() == DAOS_OT_ARRAY_BYTE);
 
-- 
2.43.0


From 3ccbe95f29287b25bcfb48b17c1832ecc0ff6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 76/76] fix: fields archived with a local catalogue and a
 remote store got into indexes of other fields

---
 src/fdb5/database/ArchiveVisitor.cc     | 2 +-
 src/fdb5/database/BaseArchiveVisitor.cc | 1 +
 src/fdb5/database/BaseArchiveVisitor.h  | 5 +++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/database/ArchiveVisitor.cc b/src/fdb5/database/ArchiveVisitor.cc
index 191890d..68ca7e5 100644
--- a/src/fdb5/database/ArchiveVisitor.cc
+++ b/src/fdb5/database/ArchiveVisitor.cc
@@ -36,7 +36,7 @@ void ArchiveVisitor::callbacks(std::shared_ptr<CatalogueWriter> catalogue, const
 bool ArchiveVisitor::selectDatum(const Key& datumKey, const Key& fullKey) {
 
     checkMissingKeys(fullKey);
-    const Key idxKey = catalogue()->currentIndexKey();
+    const Key idxKey = currentIndexKey();
 
     auto p = std::make_shared<std::promise<std::shared_ptr<const FieldLocation>>>();
 
diff --git a/src/fdb5/database/BaseArchiveVisitor.cc b/src/fdb5/database/BaseArchiveVisitor.cc
index 9d45304..3f2ebb2 100644
--- a/src/fdb5/database/BaseArchiveVisitor.cc
+++ b/src/fdb5/database/BaseArchiveVisitor.cc
@@ -32,6 +32,7 @@ bool BaseArchiveVisitor::selectDatabase(const Key& dbKey, const Key&) {
 }
 
 bool BaseArchiveVisitor::selectIndex(const Key& idxKey) {
+    currentIndexKey_ = idxKey;
     return catalogue()->selectIndex(idxKey);
 }
 
diff --git a/src/fdb5/database/BaseArchiveVisitor.h b/src/fdb5/database/BaseArchiveVisitor.h
index 87b153c..c9347e6 100644
--- a/src/fdb5/database/BaseArchiveVisitor.h
+++ b/src/fdb5/database/BaseArchiveVisitor.h
@@ -52,11 +52,16 @@ protected:  // methods
 
     const Key& initialFieldKey() const { return initialFieldKey_; }
 
+    /// The index selected by this visitor. That of the catalogue may be another one by now: with a remote store,
+    /// it selects the indexes of the fields archived before as their locations arrive
+    const Key& currentIndexKey() const { return currentIndexKey_; }
+
 private:  // members
 
     Archiver& owner_;
 
     Key initialFieldKey_;
+    Key currentIndexKey_;
 
     bool checkMissingKeysOnWrite_;
 };
-- 
2.43.0

