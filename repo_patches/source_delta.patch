From 606c0ea9daa569010164f47803eb5e08d0d7ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 01/44] fix: keep property names, dependencies and patterns
 with embedded NULs whole

---
 .../valijson/adapters/rapidjson_adapter.hpp   |  2 +-
 .../constraints/concrete_constraints.hpp      | 25 +++++++++++--------
 include/valijson/validation_visitor.hpp       | 15 +++++------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..a48df5e 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -863,7 +863,7 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         for (typename ValueType::ConstMemberIterator itr = m_value.MemberBegin(); itr != m_value.MemberEnd(); ++itr) {
             const size_t memberNameLength = itr->name.GetStringLength();
             if (memberNameLength == propertyNameLength &&
-                    strncmp(itr->name.GetString(), propertyName.c_str(), itr->name.GetStringLength()) == 0) {
+                    memcmp(itr->name.GetString(), propertyName.data(), memberNameLength) == 0) {
                 return itr;
             }
         }
diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..ebea406 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -263,14 +263,14 @@ public:
             const StringType &propertyName,
             const StringType &dependencyName)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
                     key, PropertySet(std::less<String>(), m_allocator))).first;
         }
 
-        itr->second.insert(String(dependencyName.c_str(), m_allocator));
+        itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
 
         return *this;
     }
@@ -280,7 +280,7 @@ public:
             const StringType &propertyName,
             const ContainerType &dependencyNames)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
@@ -289,7 +289,7 @@ public:
 
         typedef typename ContainerType::value_type ValueType;
         for (const ValueType &dependencyName : dependencyNames) {
-            itr->second.insert(String(dependencyName.c_str(), m_allocator));
+            itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
         }
 
         return *this;
@@ -299,7 +299,7 @@ public:
     DependenciesConstraint & addSchemaDependency(const StringType &propertyName, const Subschema *schemaDependency)
     {
         if (m_schemaDependencies.insert(SchemaDependencies::value_type(
-                String(propertyName.c_str(), m_allocator),
+                String(propertyName.data(), propertyName.size(), m_allocator),
                 schemaDependency)).second) {
             return *this;
         }
@@ -913,7 +913,7 @@ public:
     template<typename AllocatorType>
     bool getPattern(std::basic_string<char, std::char_traits<char>, AllocatorType> &result) const
     {
-        result.assign(m_pattern.c_str());
+        result.assign(m_pattern.data(), m_pattern.size());
         return true;
     }
 
@@ -921,13 +921,13 @@ public:
     std::basic_string<char, std::char_traits<char>, AllocatorType> getPattern(
             const AllocatorType &alloc = AllocatorType()) const
     {
-        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(), alloc);
+        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.data(), m_pattern.size(), alloc);
     }
 
     template<typename AllocatorType>
     void setPattern(const std::basic_string<char, std::char_traits<char>, AllocatorType> &pattern)
     {
-        m_pattern.assign(pattern.c_str());
+        m_pattern.assign(pattern.data(), pattern.size());
     }
 
 private:
@@ -997,7 +997,8 @@ public:
             std::char_traits<char>, AllocatorType> &patternProperty,
             const Subschema *subschema)
     {
-        return addPatternPropertySubschema(patternProperty.c_str(), subschema);
+        return m_patternProperties.insert(PropertySchemaMap::value_type(
+                String(patternProperty.data(), patternProperty.size(), m_allocator), subschema)).second;
     }
 
     bool addPropertySubschema(const char *propertyName,
@@ -1012,7 +1013,8 @@ public:
             std::char_traits<char>, AllocatorType> &propertyName,
             const Subschema *subschema)
     {
-        return addPropertySubschema(propertyName.c_str(), subschema);
+        return m_properties.insert(PropertySchemaMap::value_type(
+                String(propertyName.data(), propertyName.size(), m_allocator), subschema)).second;
     }
 
     template<typename FunctorType>
@@ -1107,7 +1109,8 @@ public:
     template<typename AllocatorType>
     bool addRequiredProperty(const std::basic_string<char, std::char_traits<char>, AllocatorType> &propertyName)
     {
-        return addRequiredProperty(propertyName.c_str());
+        return m_requiredProperties.insert(String(propertyName.data(), propertyName.size(),
+                Allocator::rebind<char>::other(m_allocator))).second;
     }
 
     template<typename FunctorType>
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..edc9e98 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1471,14 +1471,15 @@ private:
         template<typename StringType>
         bool operator()(const StringType &property) const
         {
-            if (m_object.find(property.c_str()) == m_object.end()) {
+            const std::string propertyKey(property.data(), property.size());
+            if (m_object.find(propertyKey) == m_object.end()) {
                 if (m_validated) {
                     *m_validated = false;
                 }
 
                 if (m_results) {
                     m_results->pushError(m_path, "Missing required property '" +
-                            std::string(property.c_str()) + "'.");
+                            propertyKey + "'.");
                 }
 
                 return m_continueOnFailure;
@@ -1514,14 +1515,14 @@ private:
         template<typename StringType, typename ContainerType>
         bool operator()(const StringType &propertyName, const ContainerType &dependencyNames) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
 
             typedef typename ContainerType::value_type ValueType;
             for (const ValueType &dependencyName : dependencyNames) {
-                const std::string dependencyNameKey(dependencyName.c_str());
+                const std::string dependencyNameKey(dependencyName.data(), dependencyName.size());
                 if (m_object.find(dependencyNameKey) == m_object.end()) {
                     if (m_validated) {
                         *m_validated = false;
@@ -1729,7 +1730,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &patternProperty, const Subschema *subschema) const
         {
-            const std::string patternPropertyStr(patternProperty.c_str());
+            const std::string patternPropertyStr(patternProperty.data(), patternProperty.size());
 
             // It would be nice to store pre-allocated regex objects in the
             // PropertiesConstraint. does internal::regex currently support
@@ -1834,7 +1835,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *subschema) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             const typename AdapterType::Object::const_iterator itr = m_object.find(propertyNameKey);
             if (itr == m_object.end()) {
                 return m_continueIfUnmatched;
@@ -1903,7 +1904,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *schemaDependency) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
-- 
2.43.0


From 07d4ec0b2c95a0727876f08396698042540eec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 02/44] fix: multipleOf with an integral divisor must not
 truncate the value, nor apply to strings under strict types

---
 include/valijson/validation_visitor.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index edc9e98..aded1d4 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -862,6 +862,11 @@ public:
      */
     bool visit(const MultipleOfDoubleConstraint &constraint) override
     {
+        // Ignore values that are not numbers
+        if (m_strictTypes && !m_target.isNumber()) {
+            return true;
+        }
+
         const double divisor = constraint.getDivisor();
 
         double d = 0.;
@@ -933,6 +938,11 @@ public:
      */
     bool visit(const MultipleOfIntConstraint &constraint) override
     {
+        // Ignore values that are not numbers
+        if (m_strictTypes && !m_target.isNumber()) {
+            return true;
+        }
+
         const int64_t divisor = constraint.getDivisor();
 
         int64_t i = 0;
@@ -952,11 +962,12 @@ public:
                 return false;
             }
             // Casting a double outside the range of int64_t is undefined
-            // behaviour, so check those values in floating point instead.
-            if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
-                    d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
-                if (fabs(remainder(d, static_cast<double>(divisor))) >
-                        std::numeric_limits<double>::epsilon()) {
+            // behaviour, and would drop the fractional part of any other
+            // value, so check those values in floating point instead.
+            if (!(d >= static_cast<double>(std::numeric_limits<int64_t>::min()) &&
+                    d < static_cast<double>(std::numeric_limits<int64_t>::max())) ||
+                    d != std::trunc(d)) {
+                if (std::remainder(d, static_cast<double>(divisor)) != 0.0) {
                     if (m_results) {
                         m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
                     }
-- 
2.43.0


From d8aeec6f65cc18a5eb12755d637e2d134ca7208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 03/44] fix: a number with a zero fractional part is an integer
 whatever its magnitude

---
 include/valijson/validation_visitor.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index aded1d4..fa8f0f7 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -37,12 +37,6 @@ inline bool isDoubleAnInteger(const AdapterType &target)
     if (!std::isfinite(value)) {
         return false;
     }
-    if (value < static_cast<double>(std::numeric_limits<int64_t>::min())) {
-        return false;
-    }
-    if (value > static_cast<double>(std::numeric_limits<int64_t>::max())) {
-        return false;
-    }
     double intPart = 0.0;
     return std::modf(value, &intPart) == 0.0;
 }
-- 
2.43.0


From 9d4598c064d793b8ed35d5800b3aff5c88790f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 04/44] fix: report an error when a false schema or
 propertyNames rejects a value

---
 include/valijson/validation_visitor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index fa8f0f7..79cf724 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -99,6 +99,9 @@ public:
     bool validateSchema(const Subschema &subschema)
     {
         if (subschema.getAlwaysInvalid()) {
+            if (m_results) {
+                m_results->pushError(m_path, "No value is allowed by a schema that is always invalid.");
+            }
             return false;
         }
 
@@ -891,6 +894,9 @@ public:
         }
 
         if (divisor == 0) {
+            if (m_results) {
+                m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+            }
             return false;
         }
 
@@ -1227,6 +1233,10 @@ public:
                 stringAdapter, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
 
             if (!validator.validateSchema(*constraint.getSubschema())) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Failed to validate property name '" + m.first +
+                            "' against schema specified by 'propertyNames' constraint.");
+                }
                 return false;
             }
         }
-- 
2.43.0


From 2fb2d7afb31ddb79457caf197e3ec08e8d59d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 05/44] fix: do not report errors from schema types when
 another type matches

---
 include/valijson/validation_visitor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 79cf724..5eae1c7 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1350,9 +1350,13 @@ public:
 
         // Check schema-based types
         {
+            // Errors found while trying individual schemas do not mean that
+            // the target is invalid, so they are not collected
             unsigned int numValidated = 0;
+            ValidationVisitor<AdapterType, RegexEngine> v(
+                m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
             constraint.applyToSchemaTypes(
-                    ValidateSubschemas(m_target, m_path, false, true, *this, nullptr, &numValidated, nullptr));
+                    ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
                 return true;
             } else if (m_results) {
-- 
2.43.0


From 8677517e48fdc112261f7157f5f5251665d584db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 06/44] fix: check all properties matched by patternProperties
 when collecting errors

---
 include/valijson/validation_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 5eae1c7..0de5f58 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1161,7 +1161,7 @@ public:
         // constraints
         constraint.applyToPatternProperties(
                 ValidatePatternPropertySubschemas(
-                        object, m_path, true, false, true, m_strictTypes, m_strictDateTime,
+                        object, m_path, true, m_results != nullptr, true, m_strictTypes, m_strictDateTime,
                         m_results, &propertiesMatched,
                         &validated, m_regexesCache));
 
-- 
2.43.0


From 2189cede7c5918d5fa65d6bd6a71d9f8cf5f871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 07/44] fix: apply additionalItems only to items beyond the
 items list when collecting errors

---
 include/valijson/validation_visitor.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 0de5f58..a8d1c28 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -536,9 +536,6 @@ public:
         // the number of sub-schemas provided by the 'items' constraint
         const Subschema * const additionalItemsSubschema = constraint.getAdditionalItemsSubschema();
 
-        // Track how many items are validated using 'items' constraint
-        unsigned int numValidated = 0;
-
         // Array to validate
         const typename AdapterType::Array arr = m_target.asArray();
         const size_t arrSize = arr.size();
@@ -561,7 +558,7 @@ public:
 
             constraint.applyToItemSubschemas(
                     ValidateItems(arr, m_path, true, m_results != nullptr,
-                            m_strictTypes, m_strictDateTime, m_results, &numValidated,
+                            m_strictTypes, m_strictDateTime, m_results, nullptr,
                             &validated, m_regexesCache));
 
             if (!m_results && !validated) {
@@ -569,14 +566,17 @@ public:
             }
         }
 
+        // Items covered by the 'items' constraint, whether they were valid or not
+        const size_t numCovered = std::min(itemSubschemaCount, arrSize);
+
         // Validate remaining items using 'additionalItems' sub-schema
-        if (numValidated < arrSize) {
+        if (numCovered < arrSize) {
             if (additionalItemsSubschema) {
                 // Begin validation from the first item not validated against
                 // an sub-schema provided by the 'items' constraint
-                unsigned int index = numValidated;
+                size_t index = numCovered;
                 typename AdapterType::Array::const_iterator begin = arr.begin();
-                begin.advance(numValidated);
+                begin.advance(static_cast<std::ptrdiff_t>(numCovered));
                 for (typename AdapterType::Array::const_iterator itr = begin;
                         itr != arr.end(); ++itr) {
 
@@ -605,7 +605,7 @@ public:
                 }
 
             } else if (m_results) {
-                m_results->pushError(m_path, "Cannot validate item #" + std::to_string(numValidated) +
+                m_results->pushError(m_path, "Cannot validate item #" + std::to_string(numCovered) +
                         " or greater using 'items' constraint or 'additionalItems' constraint.");
                 validated = false;
 
-- 
2.43.0


From 1949d5d31cd97bd9f99aaca16f218624eb96b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 08/44] fix: uniqueItems and additionalProperties must not
 throw on loosely typed containers

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a8d1c28..29f808c 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1170,7 +1170,7 @@ public:
         const Subschema *additionalPropertiesSubschema =
                 constraint.getAdditionalPropertiesSubschema();
         if (!additionalPropertiesSubschema) {
-            if (propertiesMatched.size() != m_target.getObjectSize()) {
+            if (propertiesMatched.size() != object.size()) {
                 if (m_results) {
                     std::string unwanted;
                     for (const typename AdapterType::ObjectMember m : object) {
@@ -1384,7 +1384,8 @@ public:
             return true;
         }
 
-        size_t array_size = m_target.getArraySize();
+        const typename AdapterType::Array targetArray = m_target.asArray();
+        const size_t array_size = targetArray.size();
 
         // Empty arrays are always valid
         if (array_size == 0) {
@@ -1393,7 +1394,6 @@ public:
 
         bool validated = true;
 
-        const typename AdapterType::Array targetArray = m_target.asArray();
         const typename AdapterType::Array::const_iterator end = targetArray.end();
 
         typename AdapterType::Array::const_iterator outerItr = targetArray.begin();
-- 
2.43.0


From cf35477a2dcfef3e2d3733bc8d5df0b9149308b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 09/44] fix: accept an empty schema as a draft 3 type

---
 include/valijson/schema_parser.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..2ce3e39 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2538,7 +2538,7 @@ private:
 
         TypeConstraint constraint;
 
-        if (node.maybeString()) {
+        if (node.isString()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
             if (type == TypeConstraint::kAny && m_version == kDraft4) {
                 throwRuntimeError("'any' type is not supported in version 4 schemas.");
@@ -2546,10 +2546,15 @@ private:
 
             constraint.addNamedType(type);
 
+        } else if (node.isObject() && m_version == kDraft3) {
+            const Subschema *subschema = makeOrReuseSchema<AdapterType>(rootSchema, rootNode, node, currentScope,
+                    nodePath, fetchDoc, nullptr, nullptr, docCache, schemaRegistry);
+            constraint.addSchemaType(subschema);
+
         } else if (node.maybeArray()) {
             int index = 0;
             for (const AdapterType v : node.getArray()) {
-                if (v.maybeString()) {
+                if (v.isString()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
                     if (type == TypeConstraint::kAny && m_version == kDraft4) {
                         throwRuntimeError("'any' type is not supported in version 4 schemas.");
@@ -2570,11 +2575,6 @@ private:
                 index++;
             }
 
-        } else if (node.maybeObject() && m_version == kDraft3) {
-            const Subschema *subschema = makeOrReuseSchema<AdapterType>(rootSchema, rootNode, node, currentScope,
-                    nodePath, fetchDoc, nullptr, nullptr, docCache, schemaRegistry);
-            constraint.addSchemaType(subschema);
-
         } else {
             throwRuntimeError("Type name should be a string.");
         }
-- 
2.43.0


From acdbe0d8a2398d67d7670380edd4397133068c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 10/44] fix: a value far smaller than the divisor is not a
 multiple of it

---
 include/valijson/validation_visitor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 29f808c..b5ad938 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -919,7 +919,9 @@ public:
         const double tolerance = std::max(std::fabs(quotient), 1.0)
                 * std::numeric_limits<double>::epsilon();
 
-        if (diff > tolerance) {
+        // A non-zero value whose quotient rounds to zero is not a multiple,
+        // even when it is smaller than the tolerance.
+        if (rounded == 0 || diff > tolerance) {
             if (m_results) {
                 m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
             }
-- 
2.43.0


From 069c2f485ffd6af37f07fb86a7de5b6796cc0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 11/44] fix: resolve references against the schema resource
 they belong to

References, paths and identifiers were resolved against whichever document
root happened to be current, so that the meaning of a reference depended on
how its parent was reached. Remote documents referenced from a root $ref were
fetched again for each reference and leaked, references that are the target of
a reference by identifier were ignored, identifiers inside literal values were
treated as schemas, and cycles of references between documents were not
detected. Draft 3 'required' was lost when a subschema was reused.
---
 include/valijson/schema_parser.hpp | 604 +++++++++++++++--------------
 1 file changed, 317 insertions(+), 287 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 2ce3e39..6f62de8 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1,8 +1,11 @@
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <iostream>
+#include <map>
 #include <optional>
+#include <utility>
 #include <vector>
 
 #include <valijson/constraints/concrete_constraints.hpp>
@@ -121,6 +124,7 @@ public:
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
+            docCache.roots.emplace_back(node, std::nullopt);
             resolveThenPopulateSchema(schema, node, node, schema, std::optional<std::string>(), "", fetchDoc, nullptr,
                     nullptr, docCache, schemaRegistry);
 #if VALIJSON_USE_EXCEPTIONS
@@ -145,7 +149,36 @@ private:
     {
         typedef typename adapters::AdapterTraits<AdapterType>::DocumentType DocumentType;
 
-        typedef std::map<std::string, const DocumentType*> Type;
+        struct Type
+        {
+            /// Fetched documents, keyed by the URI used to fetch them
+            std::map<std::string, const DocumentType*> documents;
+
+            /// Root node and retrieval URI for each document that is in use
+            std::vector<std::pair<AdapterType, std::optional<std::string>>> roots;
+
+            /// Draft 3 subschemas that have a 'required' attribute
+            std::map<const Subschema *, bool> required;
+        };
+    };
+
+    /**
+     * @brief  Location of a schema node, relative to its enclosing resource
+     */
+    template<typename AdapterType>
+    struct SchemaLocation
+    {
+        /// Root node of the schema resource that contains the node
+        AdapterType root;
+
+        /// The node itself
+        AdapterType node;
+
+        /// Base URI in force where the node appears, before applying its own id
+        std::optional<std::string> scope;
+
+        /// JSON Pointer to the node, relative to root
+        std::string path;
     };
 
     /**
@@ -161,10 +194,10 @@ private:
     void freeDocumentCache(const typename DocumentCache<AdapterType>::Type
             &docCache, typename FunctionPtrs<AdapterType>::FreeDoc freeDoc)
     {
-        typedef typename DocumentCache<AdapterType>::Type DocCacheType;
-
-        for (const typename DocCacheType::value_type &v : docCache) {
-            freeDoc(v.second);
+        for (const auto &v : docCache.documents) {
+            if (v.second) {
+                freeDoc(v.second);
+            }
         }
     }
 
@@ -283,6 +316,8 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                result += "%25";
             } else {
                 result += c;
             }
@@ -308,99 +343,259 @@ private:
         return internal::uri::resolveRelativeUri(*currentScope, id);
     }
 
+    /**
+     * @brief  Remove the fragment, if present, from a URI
+     */
+    static std::string stripFragment(const std::string &uri)
+    {
+        return uri.substr(0, uri.find('#'));
+    }
+
+    /**
+     * @brief  Build the key used to identify a schema in the schema registry
+     */
+    static std::string makeRegistryKey(const std::optional<std::string> &scope, const std::string &path)
+    {
+        return (scope ? *scope : std::string()) + "#" + path;
+    }
+
+    /**
+     * @brief  Get the identifier of a schema, if it has one
+     *
+     * Identifiers that appear next to a `$ref` are ignored.
+     */
     template<typename AdapterType>
-    bool findSchemaById(
-            const AdapterType &node,
-            const std::optional<std::string> &currentScope,
-            const std::string &targetUri,
-            const std::string &nodePath,
-            std::string &foundPath,
-            std::optional<std::string> &foundScope) const
+    std::optional<std::string> getSchemaId(const AdapterType &node) const
     {
-        std::optional<std::string> updatedScope = currentScope;
+        if (!node.isObject()) {
+            return std::nullopt;
+        }
+
+        const typename AdapterType::Object object = node.asObject();
+        const typename AdapterType::Object::const_iterator itr = object.find(idKeyword());
+        if (itr == object.end() || !itr->second.isString()) {
+            return std::nullopt;
+        }
+
+        const std::string id = itr->second.asString();
+        if (id.empty() || object.find("$ref") != object.end()) {
+            return std::nullopt;
+        }
+
+        return id;
+    }
+
+    /**
+     * @brief  Update a location to account for the identifier of its node
+     *
+     * When the node is the root of an embedded schema resource, the base URI
+     * changes and paths of nested schemas are relative to the node.
+     */
+    template<typename AdapterType>
+    SchemaLocation<AdapterType> enterSchema(const SchemaLocation<AdapterType> &location) const
+    {
+        const std::optional<std::string> id = getSchemaId(location.node);
+        if (!id || (*id)[0] == '#') {
+            return location;
+        }
+
+        return SchemaLocation<AdapterType>{location.node, location.node,
+                stripFragment(*resolveId(location.scope, *id)), ""};
+    }
 
-        if (node.isObject()) {
-            const typename AdapterType::Object object = node.asObject();
-            const typename AdapterType::Object::const_iterator itr =
-                    object.find(idKeyword());
-            if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = resolveId(currentScope, itr->second.asString());
-                if (updatedScope && *updatedScope == targetUri) {
-                    foundPath = nodePath;
-                    foundScope = currentScope;
-                    return true;
+    /**
+     * @brief  Search a document for a schema with a given identifier
+     *
+     * @param  location   location of the node to search
+     * @param  targetUri  absolute URI to search for
+     * @param  isSchema   whether the node can be a schema, as opposed to a
+     *                    mapping from names to schemas
+     *
+     * @return location of the matching schema, if found
+     */
+    template<typename AdapterType>
+    std::optional<SchemaLocation<AdapterType>> findSchemaById(
+            const SchemaLocation<AdapterType> &location,
+            const std::string &targetUri,
+            bool isSchema = true) const
+    {
+        if (location.node.isObject()) {
+            if (isSchema) {
+                const std::optional<std::string> id = getSchemaId(location.node);
+                if (id) {
+                    const std::string uri = *resolveId(location.scope, *id);
+                    if (uri == targetUri || uri == targetUri + "#") {
+                        return location;
+                    }
                 }
             }
 
-            for (const typename AdapterType::ObjectMember member : object) {
-                const std::string childPath =
-                        nodePath + "/" + escapeJsonPointerToken(member.first);
-                if (findSchemaById(member.second, updatedScope, targetUri,
-                            childPath, foundPath, foundScope)) {
-                    return true;
+            const SchemaLocation<AdapterType> current = isSchema ? enterSchema(location) : location;
+            for (const typename AdapterType::ObjectMember member : location.node.asObject()) {
+                if (isSchema && (member.first == "enum" || member.first == "const" ||
+                        member.first == "default" || member.first == "examples")) {
+                    // Contains literal values, rather than schemas
+                    continue;
+                }
+
+                const bool childIsSchema = !isSchema || !(member.first == "properties" ||
+                        member.first == "patternProperties" || member.first == "definitions" ||
+                        member.first == "dependencies");
+
+                std::optional<SchemaLocation<AdapterType>> found = findSchemaById(
+                        SchemaLocation<AdapterType>{current.root, member.second, current.scope,
+                                current.path + "/" + escapeJsonPointerToken(member.first)},
+                        targetUri, childIsSchema);
+                if (found) {
+                    return found;
                 }
             }
-        } else if (node.maybeArray()) {
+        } else if (location.node.isArray()) {
             size_t index = 0;
-            for (const AdapterType item : node.asArray()) {
-                const std::string childPath = nodePath + "/" +
-                        std::to_string(index++);
-                if (findSchemaById(item, updatedScope, targetUri, childPath,
-                            foundPath, foundScope)) {
-                    return true;
+            for (const AdapterType item : location.node.asArray()) {
+                std::optional<SchemaLocation<AdapterType>> found = findSchemaById(
+                        SchemaLocation<AdapterType>{location.root, item, location.scope,
+                                location.path + "/" + std::to_string(index++)},
+                        targetUri);
+                if (found) {
+                    return found;
                 }
             }
         }
 
-        return false;
+        return std::nullopt;
     }
 
+    /**
+     * @brief  Search all documents in use for a schema with a given identifier
+     */
     template<typename AdapterType>
-    bool findScopeForPath(
-            const AdapterType &node,
-            const std::optional<std::string> &currentScope,
-            const std::string &targetPath,
-            const std::string &nodePath,
-            std::optional<std::string> &foundScope) const
+    std::optional<SchemaLocation<AdapterType>> findSchemaById(
+            const typename DocumentCache<AdapterType>::Type &docCache,
+            const std::string &targetUri) const
     {
-        if (nodePath == targetPath) {
-            foundScope = currentScope;
-            return true;
+        for (const auto &root : docCache.roots) {
+            std::optional<SchemaLocation<AdapterType>> found = findSchemaById(
+                    SchemaLocation<AdapterType>{root.first, root.first, root.second, ""}, targetUri);
+            if (found) {
+                return found;
+            }
         }
 
-        std::optional<std::string> updatedScope = currentScope;
+        return std::nullopt;
+    }
 
-        if (node.isObject()) {
-            const typename AdapterType::Object object = node.asObject();
-            const typename AdapterType::Object::const_iterator itr =
-                    object.find(idKeyword());
-            if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = resolveId(currentScope, itr->second.asString());
+    /**
+     * @brief  Find the schema that a JSON Reference points to
+     *
+     * @param  rootNode     Root node of the schema resource that contains the
+     *                      reference
+     * @param  documentUri  URI that identifies a document or an embedded schema
+     *                      resource; absent if the reference is to the current
+     *                      document, and that document does not have a URI
+     * @param  fragment     JSON Pointer or plain name
+     * @param  fetchDoc     Function to fetch remote JSON documents (optional)
+     * @param  docCache     Cache of resolved and fetched remote documents
+     */
+    template<typename AdapterType>
+    SchemaLocation<AdapterType> findReferencedSchema(
+            const AdapterType &rootNode,
+            const std::optional<std::string> &documentUri,
+            const std::string &fragment,
+            const typename FunctionPtrs<AdapterType>::FetchDoc &fetchDoc,
+            typename DocumentCache<AdapterType>::Type &docCache)
+    {
+        typedef SchemaLocation<AdapterType> Location;
+
+        const bool isPlainName = !fragment.empty() && fragment[0] != '/';
+        if (isPlainName) {
+            const std::optional<Location> found = findSchemaById<AdapterType>(
+                    docCache, makeRegistryKey(documentUri, fragment));
+            if (found) {
+                return *found;
             }
+        }
 
-            for (const typename AdapterType::ObjectMember member : object) {
-                const std::string childPath =
-                        nodePath + "/" + escapeJsonPointerToken(member.first);
-                if (findScopeForPath(member.second, updatedScope, targetPath,
-                            childPath, foundScope)) {
-                    return true;
-                }
-            }
+        // Find the root of the document or schema resource
+        std::optional<Location> resource;
+        if (!documentUri) {
+            resource.emplace(Location{rootNode, rootNode, std::nullopt, ""});
         } else {
-            if (node.maybeArray()) {
-                size_t index = 0;
-                for (const AdapterType item : node.asArray()) {
-                    const std::string childPath = nodePath + "/" +
-                            std::to_string(index++);
-                    if (findScopeForPath(item, updatedScope, targetPath,
-                                childPath, foundScope)) {
-                        return true;
+            std::optional<Location> found = findSchemaById<AdapterType>(docCache, *documentUri);
+            if (found) {
+                resource.emplace(*found);
+            } else {
+                // Have we seen this document before?
+                auto itr = docCache.documents.find(*documentUri);
+                if (itr == docCache.documents.end()) {
+                    // Resolve reference against remote document
+                    if (!fetchDoc) {
+                        throwRuntimeError("Fetching of remote JSON References not enabled.");
+                    }
+
+                    // Returns a pointer to the remote document that was
+                    // retrieved, or null if retrieval failed. This class
+                    // will take ownership of the pointer, and call freeDoc
+                    // when it is no longer needed.
+                    itr = docCache.documents.emplace(*documentUri, nullptr).first;
+                    itr->second = fetchDoc(*documentUri);
+
+                    // Can't proceed without the remote document
+                    if (!itr->second) {
+                        throwRuntimeError("Failed to fetch referenced schema document: " + *documentUri);
+                    }
+
+                    docCache.roots.emplace_back(AdapterType(*itr->second), documentUri);
+
+                    if (isPlainName) {
+                        return findReferencedSchema(rootNode, documentUri, fragment, fetchDoc, docCache);
                     }
                 }
+
+                const AdapterType document(*itr->second);
+                resource.emplace(Location{document, document, documentUri, ""});
             }
         }
 
-        return false;
+        // Walk to the referenced node, taking note of any embedded schema
+        // resources along the way
+        std::string::size_type begin = 0;
+        while (begin < fragment.size()) {
+            const std::string::size_type end = std::min(fragment.find('/', begin + 1), fragment.size());
+            const std::string token = fragment.substr(begin, end - begin);
+            const Location parent = enterSchema(*resource);
+            const AdapterType child = internal::json_pointer::resolveJsonPointerStrict(parent.node, token);
+            resource.emplace(Location{parent.root, child, parent.scope, parent.path + token});
+            begin = end;
+        }
+
+        return *resource;
+    }
+
+    /**
+     * @brief  Apply the Draft 3 'required' attribute of a subschema to its parent
+     *
+     * This is used when a subschema that has already been populated is found to
+     * be the schema for another property.
+     */
+    template<typename AdapterType>
+    void applyRequired(
+            Schema &rootSchema,
+            const Subschema *subschema,
+            const Subschema *parentSubschema,
+            const std::string *ownName,
+            const typename DocumentCache<AdapterType>::Type &docCache)
+    {
+        const auto itr = docCache.required.find(subschema);
+        if (itr == docCache.required.end()) {
+            return;
+        } else if (!parentSubschema || !ownName) {
+            throwRuntimeError("'required' constraint not valid here");
+        } else if (itr->second) {
+            constraints::RequiredConstraint constraint;
+            constraint.addRequiredProperty(*ownName);
+            rootSchema.addConstraintToSubschema(constraint, parentSubschema);
+        }
     }
 
     /**
@@ -503,7 +698,7 @@ private:
 
             // Construct a key that we can use to search the schema registry for
             // a schema corresponding to the current node
-            const std::string schemaRegistryKey = currentScope ? (*currentScope + nodePath) : nodePath;
+            const std::string schemaRegistryKey = makeRegistryKey(currentScope, nodePath);
 
             // Retrieve an existing schema from the registry if possible
             const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, schemaRegistryKey);
@@ -525,6 +720,8 @@ private:
                 populateSchema(rootSchema, rootNode, node, *subschema,
                         currentScope, nodePath, fetchDoc, parentSubschema,
                         ownName, docCache, schemaRegistry);
+            } else {
+                applyRequired<AdapterType>(rootSchema, registeredPtr, parentSubschema, ownName, docCache);
             }
 
             return subschema;
@@ -547,145 +744,30 @@ private:
         const std::optional<std::string> actualDocumentUri = resolveDocumentUri(currentScope, documentUri);
 
         // Construct a key to search the schema registry for an existing schema
-        const std::string queryKey = actualDocumentUri ? (*actualDocumentUri + actualJsonPointer) : actualJsonPointer;
-
-        if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
-            const std::string idRef = actualDocumentUri ?
-                    (*actualDocumentUri + "#" + actualJsonPointer) :
-                    ("#" + actualJsonPointer);
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, idRef,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-
-                const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, idRef);
-                if (registeredPtr) {
-                    updateSchemaRegistry(schemaRegistry, newRegistryKeys, registeredPtr);
-                    return registeredPtr;
-                }
-
-                const Subschema *subschema = rootSchema.createSubschema();
-                newRegistryKeys.push_back(idRef);
-                updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
-
-                populateSchema(rootSchema, registeredRoot, registeredRoot,
-                        *subschema, registeredScope, "", fetchDoc,
-                        parentSubschema, ownName, docCache, schemaRegistry);
-
-                return subschema;
-            }
-        }
+        const std::string queryKey = makeRegistryKey(actualDocumentUri, actualJsonPointer);
 
         // Check for the second termination condition (found a $ref node that
         // already has an entry in the schema registry)
         const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, queryKey);
         if (registeredPtr) {
             updateSchemaRegistry(schemaRegistry, newRegistryKeys, registeredPtr);
+            applyRequired<AdapterType>(rootSchema, registeredPtr, parentSubschema, ownName, docCache);
             return registeredPtr;
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-                const AdapterType referencedAdapter = actualJsonPointer.empty()
-                        ? registeredRoot
-                        : internal::json_pointer::resolveJsonPointerStrict(
-                                registeredRoot, actualJsonPointer);
-
-                std::optional<std::string> referencedScope = registeredScope;
-                if (!actualJsonPointer.empty()) {
-                    findScopeForPath(registeredRoot, registeredScope,
-                            actualJsonPointer, "", referencedScope);
-                }
-
-                const Subschema *subschema = rootSchema.createSubschema();
-                newRegistryKeys.push_back(queryKey);
-                updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
-
-                populateSchema(rootSchema, registeredRoot, referencedAdapter,
-                        *subschema, referencedScope, actualJsonPointer,
-                        fetchDoc, parentSubschema, ownName, docCache,
-                        schemaRegistry);
-
-                return subschema;
-            }
-
-            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = nullptr;
-
-            // Have we seen this document before?
-            typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
-                    docCache.find(*actualDocumentUri);
-            if (docCacheItr == docCache.end()) {
-                // Resolve reference against remote document
-                if (!fetchDoc) {
-                    throwRuntimeError("Fetching of remote JSON References not enabled.");
-                }
-
-                // Returns a pointer to the remote document that was
-                // retrieved, or null if retrieval failed. This class
-                // will take ownership of the pointer, and call freeDoc
-                // when it is no longer needed.
-                newDoc = fetchDoc(*actualDocumentUri);
-
-                // Can't proceed without the remote document
-                if (!newDoc) {
-                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-                }
-
-                typedef typename DocumentCache<AdapterType>::Type::value_type
-                        DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
-            } else {
-                newDoc = docCacheItr->second;
-            }
-
-            const AdapterType newRootNode(*newDoc);
-
-            // Find where we need to be in the document
-            const AdapterType &referencedAdapter =
-                    internal::json_pointer::resolveJsonPointerStrict(newRootNode,
-                            actualJsonPointer);
-
-            newRegistryKeys.push_back(queryKey);
-
-            // Populate the schema, starting from the referenced node, with
-            // nested JSON References resolved relative to the new root node
-            return makeOrReuseSchema(rootSchema, newRootNode, referencedAdapter,
-                    actualDocumentUri, actualJsonPointer, fetchDoc, parentSubschema,
-                    ownName, docCache, schemaRegistry, newRegistryKeys);
-
-        }
-
         if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
             throwRuntimeError("found cycle while resolving JSON reference");
         }
 
-        // JSON References in nested schema will be resolved relative to the
-        // current document
-        const AdapterType &referencedAdapter =
-                internal::json_pointer::resolveJsonPointerStrict(
-                        rootNode, actualJsonPointer);
-
         newRegistryKeys.push_back(queryKey);
 
-        std::optional<std::string> referencedScope = currentScope;
-        findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                referencedScope);
-
         // Populate the schema, starting from the referenced node, with
-        // nested JSON References resolved relative to the new root node
-        return makeOrReuseSchema(rootSchema, rootNode, referencedAdapter,
-                referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
+        // nested JSON References resolved relative to its schema resource
+        const SchemaLocation<AdapterType> target = findReferencedSchema(
+                rootNode, actualDocumentUri, actualJsonPointer, fetchDoc, docCache);
+
+        return makeOrReuseSchema(rootSchema, target.root, target.node,
+                target.scope, target.path, fetchDoc, parentSubschema,
                 ownName, docCache, schemaRegistry, newRegistryKeys);
     }
 
@@ -807,19 +889,34 @@ private:
         typename AdapterType::Object::const_iterator itr(object.end());
 
         // Check for schema identifier attribute and update current scope.
-        std::optional<std::string> updatedScope;
-        bool foundId = false;
-        if ((itr = object.find(idKeyword())) != object.end() && itr->second.maybeString()) {
-            foundId = true;
-            const std::string id = itr->second.asString();
-            rootSchema.setSubschemaId(&subschema, itr->second.asString());
-            updatedScope = resolveId(currentScope, id);
-        } else {
-            updatedScope = currentScope;
+        std::optional<std::string> updatedScope = currentScope;
+        const std::optional<std::string> id = getSchemaId(node);
+        if (id) {
+            const bool isPlainName = (*id)[0] == '#';
+            if (!isPlainName && !nodePath.empty()) {
+                // References and paths within an embedded schema resource are
+                // relative to its own root node
+                populateSchema(rootSchema, node, node, subschema, currentScope, "", fetchDoc, parentSubschema,
+                        ownName, docCache, schemaRegistry);
+                return;
+            }
+
+            rootSchema.setSubschemaId(&subschema, *id);
+
+            const std::string uri = *resolveId(currentScope, *id);
+            if (!isPlainName) {
+                updatedScope = stripFragment(uri);
+            }
+
+            if (uri.find('#') == std::string::npos) {
+                schemaRegistry.emplace(makeRegistryKey(uri, ""), &subschema);
+            } else {
+                schemaRegistry.emplace(uri, &subschema);
+            }
         }
 
-        if (foundId && updatedScope) {
-            schemaRegistry.emplace(*updatedScope, &subschema);
+        if (m_version == kDraft3 && (itr = object.find("required")) != object.end()) {
+            docCache.required[&subschema] = itr->second.maybeBool() && itr->second.asBool();
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
@@ -1110,7 +1207,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
@@ -1224,87 +1321,18 @@ private:
         const std::optional<std::string> actualDocumentUri =
                 resolveDocumentUri(currentScope, documentUri);
 
-        if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
-            const std::string idRef = actualDocumentUri ?
-                    (*actualDocumentUri + "#" + actualJsonPointer) :
-                    ("#" + actualJsonPointer);
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, idRef,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-
-                resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        registeredRoot, subschema, registeredScope,
-                        "", fetchDoc, parentSchema, ownName,
-                        docCache, schemaRegistry);
-                return;
-            }
+        if (actualJsonPointer.empty() && (!actualDocumentUri ||
+                (currentScope && *actualDocumentUri == *currentScope))) {
+            throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-                const AdapterType referencedAdapter = actualJsonPointer.empty()
-                        ? registeredRoot
-                        : internal::json_pointer::resolveJsonPointerStrict(
-                                registeredRoot, actualJsonPointer);
-
-                resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        referencedAdapter, subschema, registeredScope,
-                        actualJsonPointer, fetchDoc,
-                        parentSchema, ownName, docCache, schemaRegistry);
-                return;
-            }
-
-            // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
-
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
-
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-            }
-
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+        const SchemaLocation<AdapterType> target = findReferencedSchema(
+                rootNode, actualDocumentUri, actualJsonPointer, fetchDoc, docCache);
 
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
-            const AdapterType newRootNode(*newDoc);
-
-            const AdapterType &referencedAdapter =
-                internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
-
-            // TODO: Need to detect degenerate circular references
-            resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
-                    subschema, actualDocumentUri, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
-
-        } else if (!actualJsonPointer.empty()) {
-            const AdapterType &referencedAdapter =
-                    internal::json_pointer::resolveJsonPointerStrict(rootNode, actualJsonPointer);
-
-            std::optional<std::string> referencedScope = currentScope;
-            findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                    referencedScope);
-
-            resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
-                    subschema, referencedScope, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
-        } else {
-            throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
-        }
+        // TODO: Need to detect degenerate circular references
+        resolveThenPopulateSchema(rootSchema, target.root, target.node,
+                subschema, target.scope, target.path, fetchDoc,
+                parentSchema, ownName, docCache, schemaRegistry);
     }
 
     /**
@@ -2371,7 +2399,8 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" +
+                        escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2384,10 +2413,11 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" +
+                        escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
-                        fetchDoc, parentSubschema, &pattern, docCache,
+                        fetchDoc, nullptr, nullptr, docCache,
                         schemaRegistry);
                 constraint.addPatternPropertySubschema(pattern, subschema);
             }
-- 
2.43.0


From 9670b9ba69a46a93614d68c6d13ad966e1afba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 12/44] fix: decode percent-encoding before JSON Pointer
 escapes, and reject malformed escapes and array indices

---
 include/valijson/internal/json_pointer.hpp | 26 ++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..ba76fc1 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <algorithm>
+#include <cctype>
 #include <cerrno>
 #include <cstddef>
+#include <cstdlib>
 #include <cstring>
 #include <stdexcept>
 #include <string>
@@ -53,15 +55,14 @@ inline char decodePercentEncodedChar(const std::string &digits)
                 "expected two characters");
     }
 
-    errno = 0;
-    const char *begin = digits.c_str();
-    char *end = nullptr;
-    const unsigned long value = strtoul(begin, &end, 16);
-    if (end != begin && *end != '\0') {
+    if (!std::isxdigit(static_cast<unsigned char>(digits[0])) ||
+            !std::isxdigit(static_cast<unsigned char>(digits[1]))) {
         throwRuntimeError("Failed to decode %-encoded character '" +
                 digits + "'");
     }
 
+    const unsigned long value = strtoul(digits.c_str(), nullptr, 16);
+
     return char(value);
 }
 
@@ -98,10 +99,6 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 {
     std::string token(begin, end);
 
-    // Replace JSON Pointer-specific escaped character sequences
-    replaceAllInPlace(token, "~1", "/");
-    replaceAllInPlace(token, "~0", "~");
-
     // Replace %-encoded character sequences with their actual characters
     for (size_t n = token.find('%'); n != std::string::npos;
             n = token.find('%', n + 1)) {
@@ -119,6 +116,17 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 #endif
     }
 
+    // A tilde can only appear as part of an escaped character sequence
+    for (size_t n = token.find('~'); n != std::string::npos; n = token.find('~', n + 1)) {
+        if (n + 1 == token.size() || (token[n + 1] != '0' && token[n + 1] != '1')) {
+            throwRuntimeError("Expected '~' to be followed by '0' or '1' in token: " + token);
+        }
+    }
+
+    // Replace JSON Pointer-specific escaped character sequences
+    replaceAllInPlace(token, "~1", "/");
+    replaceAllInPlace(token, "~0", "~");
+
     return token;
 }
 
-- 
2.43.0


From 2e3961be1b390fc343738e246051e2da3dc67046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 13/44] fix: resolve references against URIs with an authority
 as RFC 3986 prescribes

---
 include/valijson/internal/uri.hpp | 93 +++++++++++++++++++++++++------
 1 file changed, 76 insertions(+), 17 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index b030743..70cde73 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -12,17 +12,26 @@ namespace internal {
 namespace uri {
 
 /**
- * @brief  Check whether a URI is absolute, returns pos just past end if found
+ * @brief  Check whether a URI begins with a scheme, returns pos just past the
+ *         colon that follows the scheme if found
  */
 inline std::optional<size_t> parseScheme(const std::string &uri)
 {
-    constexpr auto marker = "://";
+    const auto pos = uri.find(':');
+    if (pos == std::string::npos || pos == 0) {
+        return std::nullopt;
+    }
 
-    const auto pos = uri.find(marker);
+    for (size_t i = 0; i < pos; ++i) {
+        const char c = uri[i];
+        const bool isAlpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+        const bool isOther = (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.';
+        if (!isAlpha && (i == 0 || !isOther)) {
+            return std::nullopt;
+        }
+    }
 
-    return pos == std::string::npos
-        ? std::nullopt
-        : std::make_optional<size_t>(pos + 3);
+    return pos + 1;
 }
 
 /**
@@ -47,6 +56,38 @@ inline bool isUrn(const std::string &documentUri) {
   return internal::regex_match(documentUri, pattern);
 }
 
+/**
+ * @brief  Remove dot segments from an absolute path (RFC 3986, section 5.2.4)
+ */
+inline std::string removeDotSegments(const std::string &path)
+{
+    std::vector<std::string> segments;
+    std::string::size_type begin = 1;
+    while (begin <= path.size()) {
+        const std::string::size_type end = std::min(path.find('/', begin), path.size());
+        const std::string segment = path.substr(begin, end - begin);
+        const bool isLast = end == path.size();
+        if (segment == "." || segment == "..") {
+            if (segment == ".." && !segments.empty()) {
+                segments.pop_back();
+            }
+            if (isLast) {
+                segments.push_back("");
+            }
+        } else {
+            segments.push_back(segment);
+        }
+        begin = end + 1;
+    }
+
+    std::string result;
+    for (const std::string &segment : segments) {
+        result += "/" + segment;
+    }
+
+    return result;
+}
+
 /**
  * Resolve a relative URI reference within a given scope.
  */
@@ -56,7 +97,7 @@ inline std::string resolveRelativeUri(
 {
     // Trivial case: There is no relative URI to resolve
     if (relativeUri.empty()) {
-        return resolutionScope;
+        return resolutionScope.substr(0, resolutionScope.find('#'));
     }
 
     // Trivial case: The relative URI is actually absolute, or is a URN
@@ -65,20 +106,25 @@ inline std::string resolveRelativeUri(
     }
 
     const auto schemeEnd = parseScheme(resolutionScope);
+    const bool hasAuthority = schemeEnd && resolutionScope.compare(*schemeEnd, 2, "//") == 0;
     std::string schemeAndAuthority;
     std::string basePath;
-    if (schemeEnd.has_value()) {
+    if (hasAuthority) {
+        // Network-path reference, which replaces everything except the scheme
+        if (relativeUri.compare(0, 2, "//") == 0) {
+            const auto pathStart = std::min(relativeUri.find_first_of("/?#", 2), relativeUri.size());
+            const auto pathEnd = std::min(relativeUri.find_first_of("?#", pathStart), relativeUri.size());
+            const std::string path = relativeUri.substr(pathStart, pathEnd - pathStart);
+            return resolutionScope.substr(0, *schemeEnd) + relativeUri.substr(0, pathStart) +
+                    removeDotSegments(path) + relativeUri.substr(pathEnd);
+        }
+
         // Extract scheme+authority, e.g. http://userinfo@example.com:8080
-        const auto authorityEnd = resolutionScope.find('/', *schemeEnd);
+        const auto authorityEnd = resolutionScope.find_first_of("/?#", *schemeEnd + 2);
         schemeAndAuthority = resolutionScope.substr(0, authorityEnd);
 
         // Assume path starts immediately after scheme+authority
-        const std::string::size_type pathStart = schemeAndAuthority.size();
-
-        // Extract base path from resolution scope, or use '/' as default
-        basePath = pathStart < resolutionScope.size()
-                ? resolutionScope.substr(pathStart)
-                : "/";
+        basePath = resolutionScope.substr(schemeAndAuthority.size());
     } else {
         // A relative resolution scope still represents a URI path. Relative
         // references replace its final path segment rather than being appended
@@ -93,15 +139,22 @@ inline std::string resolveRelativeUri(
     }
 
     // Strip everything after query marker if present (we need both)
+    std::string baseQuery;
     const std::string::size_type baseQueryPos = basePath.find('?');
     if (baseQueryPos != std::string::npos) {
+        baseQuery = basePath.substr(baseQueryPos);
         basePath.erase(baseQueryPos);
     }
 
     // Next two cases...
     if (!relativeUri.empty()) {
-        // Relative URI is just a fragment OR a query
-        if ((relativeUri[0] == '#') || relativeUri[0] == '?') {
+        // Relative URI is just a fragment, so the base query still applies
+        if (relativeUri[0] == '#') {
+            return schemeAndAuthority + basePath + baseQuery + relativeUri;
+        }
+
+        // Relative URI is just a query, with or without a fragment
+        if (relativeUri[0] == '?') {
             // Append it to the scheme+authority and clean base path
             return schemeAndAuthority + basePath + relativeUri;
         }
@@ -126,6 +179,8 @@ inline std::string resolveRelativeUri(
     if (!relativePath.empty() && relativePath[0] == '/') {
         // Case 1: Relative path starts with `/` so we can use it as-is
         mergedPath = relativePath;
+    } else if (hasAuthority && basePath.empty()) {
+        mergedPath = "/" + relativePath;
     } else {
         // Case 2: We need to join the base path and relative path, which we do by
         // stripping the base path of any segment after its last slash
@@ -135,6 +190,10 @@ inline std::string resolveRelativeUri(
                 : basePath.substr(0, lastSlashPos + 1) + relativePath;
     }
 
+    if (hasAuthority) {
+        return schemeAndAuthority + removeDotSegments(mergedPath) + suffix;
+    }
+
     // Resolve relative path segments
     const bool absolutePath = !mergedPath.empty() && mergedPath[0] == '/';
     std::vector<std::string> segments;
-- 
2.43.0


From db736069acdce13f014bc3d0d15930c877f9a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 14/44] fix: reject divisors that are not greater than zero

---
 include/valijson/schema_parser.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 6f62de8..ff05e69 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2217,8 +2217,13 @@ private:
     template<typename AdapterType>
     constraints::MultipleOfDoubleConstraint makeMultipleOfDoubleConstraint(const AdapterType &node)
     {
+        const double divisor = node.asDouble();
+        if (!(divisor > 0)) {
+            throwRuntimeError("Divisor should be greater than zero.");
+        }
+
         constraints::MultipleOfDoubleConstraint constraint;
-        constraint.setDivisor(node.asDouble());
+        constraint.setDivisor(divisor);
         return constraint;
     }
 
@@ -2233,8 +2238,13 @@ private:
     template<typename AdapterType>
     constraints::MultipleOfIntConstraint makeMultipleOfIntConstraint(const AdapterType &node)
     {
+        const int64_t divisor = node.asInteger();
+        if (divisor <= 0) {
+            throwRuntimeError("Divisor should be greater than zero.");
+        }
+
         constraints::MultipleOfIntConstraint constraint;
-        constraint.setDivisor(node.asInteger());
+        constraint.setDivisor(divisor);
         return constraint;
     }
 
-- 
2.43.0


From 441694770584ddb3312de85104c1e3baeccf8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 15/44] fix: dates have four-digit years, and longer ones must
 not make validation throw

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index b5ad938..f456f60 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -409,7 +409,7 @@ public:
         const std::string format = constraint.getFormat();
         if (format == "date") {
             // Matches dates like: 2022-07-18
-            static const internal::regex date_regex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
+            static const internal::regex date_regex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, date_regex)) {
                 const auto year = std::stoi(matches[1].str());
@@ -456,8 +456,8 @@ public:
         } else if (format == "date-time") {
             // Strict mode matches date/times like: 2022-07-18T16:52:45Z, 2022-07-18T16:52:45+02:00
             // Permissive mode also matches date/times like: 2022-07-18T16:52:45
-            static const internal::regex strictRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
-            static const internal::regex permissiveRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
-- 
2.43.0


From db21bc9270eca5a48a929409a55b81848625bd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 16/44] fix: compare integers beyond 2^53 exactly

---
 include/valijson/internal/basic_adapter.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..24cc7ea 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -513,7 +513,7 @@ public:
         } else if (isBool() || (!strict && maybeBool())) {
             return (other.isBool() || (!strict && other.maybeBool())) && other.asBool() == asBool();
         } else if (isNumber() && strict) {
-            return other.isNumber() && other.getNumber() == getNumber();
+            return other.isNumber() && numericallyEqualTo(other);
         } else if (!strict && maybeDouble()) {
             return (other.maybeDouble() && other.asDouble() == asDouble());
         } else if (!strict && maybeInteger()) {
@@ -880,6 +880,23 @@ public:
 
 private:
 
+    /// Compare two numbers by value. Integers are compared as integers, because
+    /// those beyond 2^53 do not necessarily have an exact double representation.
+    bool numericallyEqualTo(const Adapter &other) const
+    {
+        const bool thisIsInteger = isInteger();
+        const bool otherIsInteger = other.isInteger();
+        if (thisIsInteger && otherIsInteger) {
+            return getInteger() == other.getInteger();
+        } else if (thisIsInteger || otherIsInteger) {
+            const double d = thisIsInteger ? other.getDouble() : getDouble();
+            const int64_t i = thisIsInteger ? getInteger() : other.getInteger();
+            return doubleIsIntegral(d) && static_cast<int64_t>(d) == i;
+        }
+
+        return getDouble() == other.getDouble();
+    }
+
     const ValueType m_value;
 };
 
-- 
2.43.0


From 8bd8c2c4486a328c38d6d9191822da942c60f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 17/44] fix: do not truncate or wrap integers when reading them
 from a JSON library

---
 .../valijson/adapters/boost_json_adapter.hpp   | 13 ++++++++++---
 include/valijson/adapters/jsoncpp_adapter.hpp  |  6 +++---
 .../adapters/nlohmann_json_adapter.hpp         | 13 ++++++++++---
 include/valijson/adapters/qvariant_adapter.hpp | 16 ++++++++++++++--
 .../valijson/adapters/rapidjson_adapter.hpp    | 18 +++++-------------
 5 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 2fa5d25..1a01cb4 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -25,6 +25,8 @@
 
 #pragma once
 
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 
@@ -324,6 +326,9 @@ public:
         if (m_value.is_double()) {
             result = m_value.get_double();
             return true;
+        } else if (isDouble()) {
+            result = static_cast<double>(m_value.get_uint64());
+            return true;
         }
 
         return false;
@@ -334,7 +339,7 @@ public:
         if (m_value.is_int64()) {
             result = m_value.get_int64();
             return true;
-        } else if (m_value.is_uint64()) {
+        } else if (isInteger()) {
             result = static_cast<int64_t>(m_value.get_uint64());
             return true;
         }
@@ -413,12 +418,14 @@ public:
 
     bool isDouble() const
     {
-        return m_value.is_double();
+        // Integers that int64_t cannot hold are treated as doubles
+        return m_value.is_double() || (m_value.is_uint64() && !isInteger());
     }
 
     bool isInteger() const
     {
-        return m_value.is_int64() || m_value.is_uint64();
+        return m_value.is_int64() || (m_value.is_uint64() &&
+            m_value.get_uint64() <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
     }
 
     bool isNull() const
diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 4a692a6..502b465 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -327,8 +327,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isIntegral()) {
-            result = static_cast<int64_t>(m_value.asInt());
+        if (isInteger()) {
+            result = static_cast<int64_t>(m_value.asInt64());
             return true;
         }
 
@@ -406,7 +406,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.isIntegral() && !m_value.isBool();
+        return m_value.isInt64() && !m_value.isBool();
     }
 
     bool isNull() const
diff --git a/include/valijson/adapters/nlohmann_json_adapter.hpp b/include/valijson/adapters/nlohmann_json_adapter.hpp
index c520757..a2a684e 100644
--- a/include/valijson/adapters/nlohmann_json_adapter.hpp
+++ b/include/valijson/adapters/nlohmann_json_adapter.hpp
@@ -26,6 +26,8 @@
 #pragma once
 
 #include <cmath>
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 #include <nlohmann/json.hpp>
@@ -517,6 +519,9 @@ public:
             result = m_value.get<double>();
             // NaN and Infinity are always serialized as null
             return std::isfinite(result);
+        } else if (isDouble()) {
+            result = m_value.get<double>();
+            return true;
         }
 
         return false;
@@ -524,7 +529,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if(m_value.is_number_integer()) {
+        if (isInteger()) {
             result = m_value.get<int64_t>();
             return true;
         }
@@ -591,7 +596,8 @@ public:
     bool isDouble() const
     {
         if (!m_value.is_number_float()) {
-            return false;
+            // Integers that int64_t cannot hold are treated as doubles
+            return m_value.is_number_integer() && !isInteger();
         }
         // NaN and Infinity are always serialized as null
         return std::isfinite(m_value.get<double>());
@@ -599,7 +605,8 @@ public:
 
     bool isInteger() const
     {
-        return m_value.is_number_integer();
+        return m_value.is_number_integer() && (!m_value.is_number_unsigned() ||
+            m_value.get<uint64_t>() <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
     }
 
     bool isNull() const
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index a055555..3c06583 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -25,6 +25,8 @@
 
 #pragma once
 
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 #include <utility>
@@ -417,7 +419,8 @@ public:
             QMetaType::Double,
             QMetaType::Float
         };
-        return types.contains(m_value.typeId());
+        // Integers that int64_t cannot hold are treated as doubles
+        return types.contains(m_value.typeId()) || exceedsInt64();
     }
 
     bool isInteger() const
@@ -437,7 +440,7 @@ public:
             QMetaType::SChar,
             QMetaType::UChar
         };
-        return types.contains(m_value.typeId());
+        return types.contains(m_value.typeId()) && !exceedsInt64();
     }
 
     bool isNull() const
@@ -462,6 +465,15 @@ public:
 
 private:
 
+    /// Returns true if the value is an unsigned integer greater than the
+    /// largest int64_t
+    bool exceedsInt64() const
+    {
+        const int type = m_value.typeId();
+        return (type == QMetaType::ULongLong || type == QMetaType::ULong) &&
+            m_value.toULongLong() > static_cast<qulonglong>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared QtVariant value instance used to represent an empty object
     static inline const QVariant emptyObject;
 
diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index a48df5e..f17d496 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -450,7 +450,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.IsDouble()) {
+        if (isDouble()) {
             result = m_value.GetDouble();
             return true;
         }
@@ -460,18 +460,9 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.IsInt()) {
-            result = m_value.GetInt();
-            return true;
-        } else if (m_value.IsInt64()) {
+        if (m_value.IsInt64()) {
             result = m_value.GetInt64();
             return true;
-        } else if (m_value.IsUint()) {
-            result = static_cast<int64_t>(m_value.GetUint());
-            return true;
-        } else if (m_value.IsUint64()) {
-            result = static_cast<int64_t>(m_value.GetUint64());
-            return true;
         }
 
         return false;
@@ -543,12 +534,13 @@ public:
 
     bool isDouble() const
     {
-        return m_value.IsDouble();
+        // Integers that int64_t cannot hold are treated as doubles
+        return m_value.IsDouble() || (m_value.IsUint64() && !m_value.IsInt64());
     }
 
     bool isInteger() const
     {
-        return m_value.IsInt() || m_value.IsInt64() || m_value.IsUint() || m_value.IsUint64();
+        return m_value.IsInt64();
     }
 
     bool isNull() const
-- 
2.43.0


From 8cfd61744ede59f12f07bd7b09e1b480ccb35c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 18/44] fix: read 64-bit integers, and only integers, as
 integers from Qt JSON values

---
 include/valijson/adapters/qtjson_adapter.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 86d6c1b..8db4bbf 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -25,6 +25,8 @@
 
 #pragma once
 
+#include <cmath>
+#include <cstdint>
 #include <optional>
 #include <string>
 #include <utility>
@@ -337,8 +339,12 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isDouble()) {
-            result = m_value.toInt();
+        if (isInteger()) {
+#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
+            result = m_value.toInteger();
+#else
+            result = static_cast<int64_t>(m_value.toDouble());
+#endif
             return true;
         }
 
@@ -417,8 +423,14 @@ public:
 
     bool isInteger() const
     {
-        //toInt returns the default value (0, 1) if the value is not a whole number
-        return m_value.isDouble() && (m_value.toInt(0) == m_value.toInt(1));
+#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
+        //toInteger returns the default value (0, 1) if the value is not a whole number
+        return m_value.isDouble() && (m_value.toInteger(0) == m_value.toInteger(1));
+#else
+        const double value = m_value.toDouble();
+        return m_value.isDouble() && value == std::floor(value) &&
+            value >= -9223372036854775808.0 && value < 9223372036854775808.0;
+#endif
     }
 
     bool isNull() const
-- 
2.43.0


From e16b48f4d5ac532158931036f287764159e1e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 19/44] fix: default-constructed adapters must contain an empty
 object

---
 include/valijson/adapters/boost_json_adapter.hpp | 2 +-
 include/valijson/adapters/poco_json_adapter.hpp  | 6 +++---
 include/valijson/adapters/qtjson_adapter.hpp     | 2 +-
 include/valijson/adapters/qvariant_adapter.hpp   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 1a01cb4..28db49f 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -451,7 +451,7 @@ public:
 private:
 
     /// Shared Boost.JSON instance used to represent empty object.
-    static inline const boost::json::value emptyObject;
+    static inline const boost::json::value emptyObject = boost::json::object();
 
     /// Reference to the contained Boost.JSON value.
     const boost::json::value &m_value;
diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..7265c1e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -110,7 +110,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty array.
     */
-    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr();
+    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr(new Poco::JSON::Array());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -195,7 +195,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty object.
     */
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -442,7 +442,7 @@ public:
 private:
 
     /// Shared PocoJson value used to represent an empty object
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 8db4bbf..bed3b18 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -456,7 +456,7 @@ public:
 private:
 
     /// Shared QtJson value instance used to represent an empty object
-    static inline const QJsonValue emptyObject;
+    static inline const QJsonValue emptyObject = QJsonObject();
 
     /// Reference to the contained QtJson value.
     const QJsonValue m_value;
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index 3c06583..1567f58 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -475,7 +475,7 @@ private:
     }
 
     /// Shared QtVariant value instance used to represent an empty object
-    static inline const QVariant emptyObject;
+    static inline const QVariant emptyObject = QVariantMap();
 
     /// Reference to the contained QtVariant value.
     const QVariant m_value;
-- 
2.43.0


From 57f989f67cbdaf327c22d426b8523537baa45fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 20/44] fix: keep strings with embedded NULs whole in the
 Boost.JSON adapter

---
 include/valijson/adapters/boost_json_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 28db49f..0d5c1fc 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -394,7 +394,8 @@ public:
     bool getString(std::string &result) const
     {
         if (m_value.is_string()) {
-            result = m_value.get_string().c_str();
+            const boost::json::string &value = m_value.get_string();
+            result.assign(value.data(), value.size());
             return true;
         }
 
-- 
2.43.0


From 0e643ab4f64abaadbd5a1405ed51e1ee108293c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 21/44] fix: reading a double must not convert an integer held
 by a PicoJson document

---
 include/valijson/adapters/picojson_adapter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/picojson_adapter.hpp b/include/valijson/adapters/picojson_adapter.hpp
index 44403ae..277fc48 100644
--- a/include/valijson/adapters/picojson_adapter.hpp
+++ b/include/valijson/adapters/picojson_adapter.hpp
@@ -330,7 +330,9 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.is<double>()) {
+        // Note that reading an integer with get<double>() would convert the
+        // value held by the document
+        if (isDouble()) {
             result = m_value.get<double>();
             return true;
         }
-- 
2.43.0


From 84f86cb18d13da87a7186feb75da3d62a44cabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 22/44] fix: report failure instead of throwing when a YAML
 scalar cannot be converted

---
 include/valijson/adapters/yaml_cpp_adapter.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/valijson/adapters/yaml_cpp_adapter.hpp b/include/valijson/adapters/yaml_cpp_adapter.hpp
index ab87272..cc9dac2 100644
--- a/include/valijson/adapters/yaml_cpp_adapter.hpp
+++ b/include/valijson/adapters/yaml_cpp_adapter.hpp
@@ -311,8 +311,7 @@ class YamlCppValue
     bool getBool(bool &result) const
     {
         if (m_value.IsScalar()) {
-            result = m_value.as<bool>();
-            return true;
+            return YAML::convert<bool>::decode(m_value, result);
         }
 
         return false;
@@ -321,8 +320,7 @@ class YamlCppValue
     bool getDouble(double &result) const
     {
         if (m_value.IsScalar()) {
-            result = m_value.as<double>();
-            return true;
+            return YAML::convert<double>::decode(m_value, result);
         }
 
         return false;
@@ -331,8 +329,7 @@ class YamlCppValue
     bool getInteger(int64_t &result) const
     {
         if (m_value.IsScalar()) {
-            result = m_value.as<int64_t>();
-            return true;
+            return YAML::convert<int64_t>::decode(m_value, result);
         }
         return false;
     }
-- 
2.43.0


From 7c772b450cd21348af78bb40b055fd1b207777ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 23/44] fix: Poco booleans are not numbers, and large unsigned
 integers must not make reading them throw

---
 include/valijson/adapters/poco_json_adapter.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 7265c1e..d5ef2fe 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -25,6 +25,8 @@
 
 #pragma once
 
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 #include <Poco/JSON/Object.h>
@@ -328,7 +330,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.isNumeric() && !m_value.isInteger()) {
+        if (isDouble()) {
             result = m_value.convert<double>();
             return true;
         }
@@ -338,7 +340,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isInteger()) {
+        if (isInteger()) {
             result = m_value.convert<int64_t>();
             return true;
         }
@@ -411,12 +413,14 @@ public:
 
     bool isDouble() const
     {
-        return m_value.isNumeric() && !m_value.isInteger();
+        return isNumber() && !isInteger();
     }
 
     bool isInteger() const
     {
-        return !isBool() && m_value.isInteger();
+        // Integers that int64_t cannot hold are treated as doubles
+        return isNumber() && m_value.isInteger() && (m_value.isSigned() ||
+            m_value.convert<uint64_t>() <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
     }
 
     bool isNull() const
@@ -426,7 +430,8 @@ public:
 
     bool isNumber() const
     {
-        return m_value.isNumeric();
+        // Booleans and characters are also numeric, as far as Poco is concerned
+        return m_value.isNumeric() && !m_value.isBoolean() && !m_value.isString();
     }
 
     bool isObject() const
-- 
2.43.0


From 30c679e5981e9dbf0e51fa27d6e766982fb7c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 24/44] fix: freezing a PocoJson value must copy it instead of
 sharing it with the document

---
 .../valijson/adapters/poco_json_adapter.hpp   | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d5ef2fe..33ee15b 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -207,8 +207,8 @@ private:
 * @brief   Stores an independent copy of a PocoJson value.
 *
 * This class allows a PocoJson value to be stored independent of its original
-* document. PocoJson makes this easy to do, as it does not perform any
-* custom memory management.
+* document. PocoJson arrays and objects are held by shared pointers, so they are
+* copied recursively.
 *
 * @see FrozenValue
 */
@@ -222,7 +222,7 @@ public:
     * @param  source  the PocoJson value to be copied
     */
     explicit PocoJsonFrozenValue(const Poco::Dynamic::Var &source)
-        : m_value(source)
+        : m_value(copy(source))
     { }
 
     virtual FrozenValue * clone() const
@@ -234,6 +234,26 @@ public:
 
 private:
 
+    /// Make a deep copy of a PocoJson value
+    static Poco::Dynamic::Var copy(const Poco::Dynamic::Var &source)
+    {
+        if (source.type() == typeid(Poco::JSON::Array::Ptr)) {
+            Poco::JSON::Array::Ptr array(new Poco::JSON::Array());
+            for (const auto &element : *source.extract<Poco::JSON::Array::Ptr>()) {
+                array->add(copy(element));
+            }
+            return array;
+        } else if (source.type() == typeid(Poco::JSON::Object::Ptr)) {
+            Poco::JSON::Object::Ptr object(new Poco::JSON::Object());
+            for (const auto &member : *source.extract<Poco::JSON::Object::Ptr>()) {
+                object->set(member.first, copy(member.second));
+            }
+            return object;
+        }
+
+        return source;
+    }
+
     /// Stored PocoJson value
     Poco::Dynamic::Var m_value;
 };
-- 
2.43.0


From 40a203e7d1784dce52b476038989f5e0a6cf50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 25/44] fix: Boost.JSON integers that int64_t cannot hold are
 only readable as doubles

---
 .../valijson/adapters/boost_json_adapter.hpp    | 17 ++++++++++++-----
 include/valijson/internal/basic_adapter.hpp     | 12 +++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 0d5c1fc..470fea1 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -339,7 +339,7 @@ public:
         if (m_value.is_int64()) {
             result = m_value.get_int64();
             return true;
-        } else if (isInteger()) {
+        } else if (m_value.is_uint64() && !exceedsInt64()) {
             result = static_cast<int64_t>(m_value.get_uint64());
             return true;
         }
@@ -419,14 +419,13 @@ public:
 
     bool isDouble() const
     {
-        // Integers that int64_t cannot hold are treated as doubles
-        return m_value.is_double() || (m_value.is_uint64() && !isInteger());
+        // Integers that int64_t cannot hold can only be read as doubles
+        return m_value.is_double() || exceedsInt64();
     }
 
     bool isInteger() const
     {
-        return m_value.is_int64() || (m_value.is_uint64() &&
-            m_value.get_uint64() <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
+        return m_value.is_int64() || m_value.is_uint64();
     }
 
     bool isNull() const
@@ -451,6 +450,14 @@ public:
 
 private:
 
+    /// Returns true if the value is an unsigned integer greater than the
+    /// largest int64_t
+    bool exceedsInt64() const
+    {
+        return m_value.is_uint64() &&
+            m_value.get_uint64() > static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared Boost.JSON instance used to represent empty object.
     static inline const boost::json::value emptyObject = boost::json::object();
 
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 24cc7ea..b5b6d70 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -806,7 +806,8 @@ public:
 
     bool maybeInteger() const override
     {
-        if (m_value.isInteger()) {
+        int64_t integerValue;
+        if (m_value.isInteger() && m_value.getInteger(integerValue)) {
             return true;
         } else if (m_value.isDouble()) {
             double d;
@@ -884,13 +885,14 @@ private:
     /// those beyond 2^53 do not necessarily have an exact double representation.
     bool numericallyEqualTo(const Adapter &other) const
     {
-        const bool thisIsInteger = isInteger();
-        const bool otherIsInteger = other.isInteger();
+        int64_t thisInteger, otherInteger;
+        const bool thisIsInteger = isInteger() && getInteger(thisInteger);
+        const bool otherIsInteger = other.isInteger() && other.getInteger(otherInteger);
         if (thisIsInteger && otherIsInteger) {
-            return getInteger() == other.getInteger();
+            return thisInteger == otherInteger;
         } else if (thisIsInteger || otherIsInteger) {
             const double d = thisIsInteger ? other.getDouble() : getDouble();
-            const int64_t i = thisIsInteger ? getInteger() : other.getInteger();
+            const int64_t i = thisIsInteger ? thisInteger : otherInteger;
             return doubleIsIntegral(d) && static_cast<int64_t>(d) == i;
         }
 
-- 
2.43.0


From 6c63b3dd6a3a88e47fcf3e74a82d8837e9db36fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 26/44] fix: read integers from strings independently of the
 locale, and from the whole string only

---
 .../valijson/adapters/std_string_adapter.hpp  |  8 +-----
 include/valijson/internal/basic_adapter.hpp   | 25 +++++-------------
 include/valijson/internal/double_parser.hpp   | 26 ++++++++++++++++---
 3 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..d7ad951 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -321,14 +321,8 @@ public:
 
     bool maybeInteger() const override
     {
-        std::istringstream i(m_value);
         int64_t x;
-        char c;
-        if (!(i >> x) || i.get(c)) {
-            return false;
-        }
-
-        return true;
+        return internal::parseInteger(m_value, x);
     }
 
     bool maybeNull() const override
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index b5b6d70..b0677e9 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -410,13 +410,7 @@ public:
         } else if (m_value.isString()) {
             std::string s;
             if (m_value.getString(s)) {
-                std::istringstream i(s);
-                int64_t x;
-                char c;
-                if (!(!(i >> x) || i.get(c))) {
-                    result = x;
-                    return true;
-                }
+                return internal::parseInteger(s, result);
             }
         }
 
@@ -466,6 +460,7 @@ public:
 
     bool asString(std::string &result) const override
     {
+        int64_t integerValue;
         if (m_value.isString()) {
             return m_value.getString(result);
         } else if (m_value.isNull()) {
@@ -489,12 +484,9 @@ public:
                 result = boolValue ? "true" : "false";
                 return true;
             }
-        } else if (m_value.isInteger()) {
-            int64_t integerValue;
-            if (m_value.getInteger(integerValue)) {
-                result = std::to_string(integerValue);
-                return true;
-            }
+        } else if (m_value.isInteger() && m_value.getInteger(integerValue)) {
+            result = std::to_string(integerValue);
+            return true;
         } else if (m_value.isDouble()) {
             double doubleValue;
             if (m_value.getDouble(doubleValue)) {
@@ -817,13 +809,8 @@ public:
         } else if (maybeString()) {
             std::string s;
             if (m_value.getString(s)) {
-                std::istringstream i(s);
                 int64_t x;
-                char c;
-                if (!(i >> x) || i.get(c)) {
-                    return false;
-                }
-                return true;
+                return internal::parseInteger(s, x);
             }
         }
 
diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index 5ba9118..a75d523 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <charconv>
+#include <cstdint>
 #include <locale>
 #include <sstream>
 #include <string>
@@ -36,9 +38,7 @@
 #endif
 
 // include the appropriate header for the available implementation
-#if VALIJSON_HAS_STD_FROM_CHARS
-#  include <charconv>
-#elif defined(VALIJSON_HAS_FAST_FLOAT_FROM_CHARS)
+#if !VALIJSON_HAS_STD_FROM_CHARS && defined(VALIJSON_HAS_FAST_FLOAT_FROM_CHARS)
 #  include <fast_float/fast_float.h>
 #endif
 
@@ -78,5 +78,25 @@ inline bool parseDouble(const std::string &input, double &result)
     return true;
 }
 
+/**
+ * @brief  Convert the whole of a string to an integer
+ *
+ * Like parseDouble, this depends on neither the global locale nor the current
+ * C locale, and accepts neither surrounding whitespace nor a leading '+'.
+ */
+inline bool parseInteger(const std::string &input, int64_t &result)
+{
+    const char *begin = input.data();
+    const char *end = begin + input.length();
+    int64_t value;
+    const auto conversion = std::from_chars(begin, end, value);
+    if (conversion.ec != std::errc() || conversion.ptr != end) {
+        return false;
+    }
+
+    result = value;
+    return true;
+}
+
 } // namespace internal
 } // namespace valijson
-- 
2.43.0


From 16169d47064dbde29216a55763e256fba530f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 27/44] fix: convert property names by their content under weak
 types

---
 .../valijson/adapters/std_string_adapter.hpp  | 62 ++++++++++++-------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index d7ad951..fa125da 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -117,35 +117,52 @@ public:
 
     bool asBool() const override
     {
-        return true;
+        bool result;
+        if (asBool(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a boolean");
     }
 
     bool asBool(bool &result) const override
     {
-        result = true;
-        return true;
+        if (maybeBool()) {
+            result = m_value == "true";
+            return true;
+        }
+
+        return false;
     }
 
     double asDouble() const override
     {
-        return 0;
+        double result;
+        if (asDouble(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a double");
     }
 
     bool asDouble(double &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseDouble(m_value, result);
     }
 
     int64_t asInteger() const override
     {
-        return 0;
+        int64_t result;
+        if (asInteger(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to an integer");
     }
 
     bool asInteger(int64_t &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseInteger(m_value, result);
     }
 
     StdStringObject asObject() const
@@ -174,7 +191,8 @@ public:
             return false;
         }
 
-        return m_value == other.asString();
+        std::string otherValue;
+        return other.asString(otherValue) && m_value == otherValue;
     }
 
     FrozenValue* freeze() const override
@@ -192,9 +210,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getArraySize(size_t &) const override
+    bool getArraySize(size_t &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN bool getBool() const override
@@ -202,9 +220,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getBool(bool &) const override
+    bool getBool(bool &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN double getDouble() const override
@@ -212,9 +230,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getDouble(double &) const override
+    bool getDouble(double &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN int64_t getInteger() const override
@@ -222,9 +240,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getInteger(int64_t &) const override
+    bool getInteger(int64_t &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN double getNumber() const override
@@ -232,9 +250,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getNumber(double &) const override
+    bool getNumber(double &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN size_t getObjectSize() const override
@@ -242,9 +260,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getObjectSize(size_t &) const override
+    bool getObjectSize(size_t &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     std::string getString() const override
-- 
2.43.0


From d9a51283b2e0d93982d580159a341fa1ad6fcdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 28/44] fix: 2^63 is not an integer that int64_t can hold

---
 include/valijson/internal/basic_adapter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index b0677e9..d15437d 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -98,7 +98,9 @@ protected:
         if (d < static_cast<double>(std::numeric_limits<int64_t>::min())) {
             return false;
         }
-        if (d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+        // The largest int64_t has no exact double representation, and is rounded
+        // up to 2^63 here, which cannot be cast to int64_t.
+        if (d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
             return false;
         }
         double intPart = 0.0;
-- 
2.43.0


From a077c9ea494134e4b595f846e9a31f2d7e23d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 29/44] fix: failing to read a YAML scalar must leave the
 output parameter alone

---
 .../valijson/adapters/yaml_cpp_adapter.hpp    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/yaml_cpp_adapter.hpp b/include/valijson/adapters/yaml_cpp_adapter.hpp
index cc9dac2..e4c8452 100644
--- a/include/valijson/adapters/yaml_cpp_adapter.hpp
+++ b/include/valijson/adapters/yaml_cpp_adapter.hpp
@@ -311,7 +311,12 @@ class YamlCppValue
     bool getBool(bool &result) const
     {
         if (m_value.IsScalar()) {
-            return YAML::convert<bool>::decode(m_value, result);
+            // decode() may modify its output even if it fails
+            bool value;
+            if (YAML::convert<bool>::decode(m_value, value)) {
+                result = value;
+                return true;
+            }
         }
 
         return false;
@@ -320,7 +325,12 @@ class YamlCppValue
     bool getDouble(double &result) const
     {
         if (m_value.IsScalar()) {
-            return YAML::convert<double>::decode(m_value, result);
+            // decode() may modify its output even if it fails
+            double value;
+            if (YAML::convert<double>::decode(m_value, value)) {
+                result = value;
+                return true;
+            }
         }
 
         return false;
@@ -329,7 +339,12 @@ class YamlCppValue
     bool getInteger(int64_t &result) const
     {
         if (m_value.IsScalar()) {
-            return YAML::convert<int64_t>::decode(m_value, result);
+            // decode() may modify its output even if it fails
+            int64_t value;
+            if (YAML::convert<int64_t>::decode(m_value, value)) {
+                result = value;
+                return true;
+            }
         }
         return false;
     }
-- 
2.43.0


From f478ad4a693a9c522572e1255d67f27a01a35a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 30/44] fix: JSON Pointer array indices are digits only

---
 include/valijson/internal/json_pointer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index ba76fc1..9aece0a 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -200,6 +200,14 @@ inline AdapterType resolveJsonPointer(
                     "since the requested array element does not yet exist");
         }
 
+        // Array indices consist of digits only, without leading zeros
+        if (referenceToken.find_first_not_of("0123456789") != std::string::npos ||
+                (referenceToken.size() > 1 && referenceToken[0] == '0')) {
+            throwRuntimeError("Expected reference token to contain a "
+                    "non-negative integer to identify an element in the "
+                    "current array; actual token: " + referenceToken);
+        }
+
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
-- 
2.43.0


From 664850c03d63a33b63629b9b24942b94ca653f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 31/44] fix: detect circular references that span documents,
 and follow references to their roots

---
 include/valijson/schema_parser.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ff05e69..2413903 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -125,8 +125,9 @@ public:
         try {
 #endif
             docCache.roots.emplace_back(node, std::nullopt);
+            std::vector<std::string> visitedKeys;
             resolveThenPopulateSchema(schema, node, node, schema, std::optional<std::string>(), "", fetchDoc, nullptr,
-                    nullptr, docCache, schemaRegistry);
+                    nullptr, docCache, schemaRegistry, visitedKeys);
 #if VALIJSON_USE_EXCEPTIONS
         } catch (...) {
             freeDocumentCache<AdapterType>(docCache, freeDoc);
@@ -1288,6 +1289,9 @@ private:
      *                        the 'required' keyword in Draft 3
      * @param  docCache       Cache of resolved and fetched remote documents
      * @param  schemaRegistry Registry of populated schemas
+     * @param  visitedKeys    Keys for documents, and locations within other
+     *                        documents, that have been visited while resolving
+     *                        references
      */
     template<typename AdapterType>
     void resolveThenPopulateSchema(
@@ -1301,7 +1305,8 @@ private:
         const Subschema *parentSchema,
         const std::string *ownName,
         typename DocumentCache<AdapterType>::Type &docCache,
-        SchemaRegistry &schemaRegistry)
+        SchemaRegistry &schemaRegistry,
+        std::vector<std::string> &visitedKeys)
     {
         std::string jsonRef;
         if (!extractJsonReference(node, jsonRef)) {
@@ -1321,18 +1326,28 @@ private:
         const std::optional<std::string> actualDocumentUri =
                 resolveDocumentUri(currentScope, documentUri);
 
-        if (actualJsonPointer.empty() && (!actualDocumentUri ||
+        if (nodePath.empty() && actualJsonPointer.empty() && (!actualDocumentUri ||
                 (currentScope && *actualDocumentUri == *currentScope))) {
             throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
         }
 
+        // Detect circular references that visit the same document more than once
+        if (documentUri || actualJsonPointer.empty()) {
+            const std::string key = makeRegistryKey(actualDocumentUri, actualJsonPointer);
+            if (std::find(visitedKeys.begin(), visitedKeys.end(), key) != visitedKeys.end()) {
+                throwRuntimeError("found cycle while resolving JSON reference");
+            }
+
+            visitedKeys.push_back(key);
+        }
+
         const SchemaLocation<AdapterType> target = findReferencedSchema(
                 rootNode, actualDocumentUri, actualJsonPointer, fetchDoc, docCache);
 
-        // TODO: Need to detect degenerate circular references
+        // TODO: Need to detect degenerate circular references within a document
         resolveThenPopulateSchema(rootSchema, target.root, target.node,
                 subschema, target.scope, target.path, fetchDoc,
-                parentSchema, ownName, docCache, schemaRegistry);
+                parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
     }
 
     /**
-- 
2.43.0


From dea354d4a977730b58e601918f94ebfcc50629aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 32/44] fix: collect the errors of every allOf subschema when
 results are requested

With a results object, AllOfConstraint stopped at the first subschema that
failed, so failures reported by later subschemas were missing, unlike what
the documentation of the visitor promises.
---
 include/valijson/validation_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index f456f60..24effdf 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -152,7 +152,7 @@ public:
     {
         bool validated = true;
         constraint.applyToSubschemas(
-                ValidateSubschemas(m_target, m_path, true, false, *this, m_results, nullptr, &validated));
+                ValidateSubschemas(m_target, m_path, true, m_results != nullptr, *this, m_results, nullptr, &validated));
 
         return validated;
     }
-- 
2.43.0


From b9f0ea9bd8c10cc0972b1b2c236a28fcb389915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 33/44] fix: do not allocate in the RapidJSON assertion

RAPIDJSON_ASSERT built a std::string from its file name even when it held,
including in constructors that must not throw, so that running out of memory
there terminated the program.
---
 include/valijson/adapters/rapidjson_adapter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index f17d496..1d38199 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -51,12 +51,12 @@
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
     #else
         template<typename T>
-        T rapidjson_assert(T t, const std::string& file, const int line) {
+        T rapidjson_assert(T t, const char *file, const int line) {
           if (t) {
             return t;
           }
 
-          throw std::runtime_error("assertion failed; file: " + file + "; line: " + std::to_string(line));
+          throw std::runtime_error(std::string("assertion failed; file: ") + file + "; line: " + std::to_string(line));
         }
 
         #define RAPIDJSON_ASSERT(x) rapidjson_assert(x, __FILE__, __LINE__)
-- 
2.43.0


From 59a776446f42bab303d173b04daae6167aace63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 34/44] fix: report allocation failure from CustomAllocator

allocate() returned the null pointer of the allocation function to the
standard containers, which then wrote through it.
---
 include/valijson/internal/custom_allocator.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/custom_allocator.hpp b/include/valijson/internal/custom_allocator.hpp
index fb34b9f..e9fcfc5 100644
--- a/include/valijson/internal/custom_allocator.hpp
+++ b/include/valijson/internal/custom_allocator.hpp
@@ -1,6 +1,10 @@
 #pragma once
 
+#include <cstddef>
 #include <limits>
+#include <new>
+
+#include <valijson/exceptions.hpp>
 
 namespace valijson {
 namespace internal {
@@ -67,7 +71,12 @@ public:
 
     pointer allocate(size_type cnt, const void * = nullptr)
     {
-        return reinterpret_cast<pointer>(m_allocFn(cnt * sizeof(T)));
+        void *ptr = m_allocFn(cnt * sizeof(T));
+        if (!ptr) {
+            throwRuntimeError("Failed to allocate memory");
+        }
+
+        return reinterpret_cast<pointer>(ptr);
     }
 
     void deallocate(pointer p, size_type)
-- 
2.43.0


From 026b32a387ef5bf8beb3df0b88849fb8beb73984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 35/44] fix: do not leak an enum value that cannot be stored

---
 include/valijson/constraints/concrete_constraints.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ebea406..b969986 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -402,13 +402,17 @@ public:
     void addValue(const adapters::Adapter &value)
     {
         // TODO: Freeze value using custom alloc/free functions
-        m_enumValues.push_back(value.freeze());
+        std::unique_ptr<const EnumValue> newValue(value.freeze());
+        m_enumValues.push_back(newValue.get());
+        (void)newValue.release();
     }
 
     void addValue(const adapters::FrozenValue &value)
     {
         // TODO: Clone using custom alloc/free functions
-        m_enumValues.push_back(value.clone());
+        std::unique_ptr<const EnumValue> newValue(value.clone());
+        m_enumValues.push_back(newValue.get());
+        (void)newValue.release();
     }
 
     template<typename FunctorType>
-- 
2.43.0


From 6b84b46eced54a9b20658a05f3d7908f2971c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 36/44] fix: let a populated schema be moved when it refers to
 itself by identifier

---
 include/valijson/schema_parser.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 2413903..af36701 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -909,10 +909,11 @@ private:
                 updatedScope = stripFragment(uri);
             }
 
-            if (uri.find('#') == std::string::npos) {
-                schemaRegistry.emplace(makeRegistryKey(uri, ""), &subschema);
-            } else {
-                schemaRegistry.emplace(uri, &subschema);
+            // Constraints must not point to the root schema itself, as it can
+            // be moved, so references to it are given a subschema of their own
+            if (&subschema != &rootSchema) {
+                schemaRegistry.emplace(uri.find('#') == std::string::npos ?
+                        makeRegistryKey(uri, "") : uri, &subschema);
             }
         }
 
-- 
2.43.0


From 61c9ca2ac3d120e1eaae29359988db62bce2e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 37/44] fix: do not hold an iterator into the regex cache while
 validating properties

---
 include/valijson/validation_visitor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 24effdf..a2e8d25 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1762,12 +1762,16 @@ private:
                 it = m_regexesCache.emplace(patternPropertyStr, RegexEngine(patternPropertyStr)).first;
             }
 
+            // Unlike an iterator, this reference remains valid when validating
+            // a property causes more patterns to be added to the cache
+            const RegexEngine &regex = it->second;
+
             bool matchFound = false;
 
             // Recursively validate all matching properties
             typedef const typename AdapterType::ObjectMember ObjectMember;
             for (const ObjectMember m : m_object) {
-                if (RegexEngine::search(m.first, it->second)) {
+                if (RegexEngine::search(m.first, regex)) {
                     matchFound = true;
                     if (m_propertiesMatched) {
                         m_propertiesMatched->insert(m.first);
-- 
2.43.0


From 276e49ec43e1a840e430fca1a4ba847b4f4024ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 38/44] fix: do not throw when RapidJSON finds an error near
 the start of a file

---
 include/valijson/utils/rapidjson_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2f90ba9..59d2914 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -28,7 +28,7 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-            std::cerr << "Near: " << file.substr((std::max)(size_t(0), document.GetErrorOffset() - 20), 40) << std::endl;
+            std::cerr << "Near: " << file.substr(document.GetErrorOffset() > 20 ? document.GetErrorOffset() - 20 : 0, 40) << std::endl;
             return false;
         }
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0


From 64268628c3c9911ac601e99a5126fce123b231a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 39/44] fix: report a file nlohmann::json cannot parse instead
 of throwing

---
 include/valijson/utils/nlohmann_json_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 77e5771..ea06041 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -23,7 +23,7 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
 #if VALIJSON_USE_EXCEPTIONS
     try {
         document = nlohmann::json::parse(file);
-    } catch (std::invalid_argument const& exception) {
+    } catch (nlohmann::json::exception const& exception) {
         std::cerr << "nlohmann::json failed to parse the document\n"
             << "Parse error:" << exception.what() << "\n";
         return false;
-- 
2.43.0


From a7e71f2a038924fffd8409bb78840ba48627a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 40/44] fix: report a number PicoJSON cannot hold instead of
 throwing

---
 include/valijson/utils/picojson_utils.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/valijson/utils/picojson_utils.hpp b/include/valijson/utils/picojson_utils.hpp
index 36420d2..034b090 100644
--- a/include/valijson/utils/picojson_utils.hpp
+++ b/include/valijson/utils/picojson_utils.hpp
@@ -25,12 +25,23 @@ inline bool loadDocument(const std::string &path, picojson::value &document)
     }
 
     // Parse schema
-    std::string err = picojson::parse(document, file);
-    if (!err.empty()) {
+#if VALIJSON_USE_EXCEPTIONS
+    try {
+#endif
+        std::string err = picojson::parse(document, file);
+        if (!err.empty()) {
+            std::cerr << "PicoJson failed to parse the document:" << std::endl
+                      << "Parse error: " << err << std::endl;
+            return false;
+        }
+#if VALIJSON_USE_EXCEPTIONS
+    } catch (std::exception const& exception) {
+        // Numbers that are too large are reported by an exception
         std::cerr << "PicoJson failed to parse the document:" << std::endl
-                  << "Parse error: " << err << std::endl;
+                  << "Parse error: " << exception.what() << std::endl;
         return false;
     }
+#endif
 
     return true;
 }
-- 
2.43.0


From f5591a96faa363ecdfd9c730df097107a245ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 41/44] fix: include the number parser in bundled headers

---
 bundle.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bundle.sh b/bundle.sh
index f2d6503..288698f 100755
--- a/bundle.sh
+++ b/bundle.sh
@@ -65,6 +65,7 @@ fi
 
 common_headers=(
   include/valijson/exceptions.hpp
+  include/valijson/internal/double_parser.hpp
   include/valijson/internal/adapter.hpp
   include/valijson/internal/basic_adapter.hpp
   include/valijson/internal/custom_allocator.hpp
-- 
2.43.0


From 33b430a3dc8a487d6ac7d12f5fb3f1996c6f8077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 42/44] fix: let the RapidJSON adapter be used with exceptions
 disabled

---
 include/valijson/adapters/rapidjson_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 1d38199..302e0f3 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -45,7 +45,7 @@
 #include <iterator>
 #include <type_traits>
 
-#ifdef VALIJSON_USE_EXCEPTIONS
+#if VALIJSON_USE_EXCEPTIONS
     #ifdef RAPIDJSON_ASSERT
         #warning "RAPIDJSON_ASSERT already defined."
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
-- 
2.43.0


From becc90fdffeefd4266a4f420de02db40007c6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 43/44] fix: times with very long fractions must not exhaust
 the stack

---
 include/valijson/validation_visitor.hpp | 31 +++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a2e8d25..f38eac8 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -427,8 +427,9 @@ public:
             // Permissive mode also matches times like 16:52:45
             static const internal::regex strictRegex("^([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             static const internal::regex permissiveRegex("^([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            const std::string shortened = shortenFraction(s);
             internal::smatch matches;
-            if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
+            if (internal::regex_match(shortened, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto hour = std::stoi(matches[1].str());
                 const auto minute = std::stoi(matches[2].str());
                 const auto second = std::stoi(matches[3].str());
@@ -458,8 +459,9 @@ public:
             // Permissive mode also matches date/times like: 2022-07-18T16:52:45
             static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            const std::string shortened = shortenFraction(s);
             internal::smatch matches;
-            if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
+            if (internal::regex_match(shortened, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
                 const auto month = std::stoi(matches[2].str());
                 const auto day = std::stoi(matches[3].str());
@@ -2077,6 +2079,31 @@ private:
         return true;
     }
 
+    /**
+     * @brief    Reduce the fraction of a second in a time to a single digit
+     *
+     * Regular expression matching can exhaust the stack when a fraction has a
+     * great many digits. Their number does not affect the validity of a time.
+     *
+     * @param    s  String that may contain a time
+     *
+     * @return   string that contains a valid time if and only if \c s does
+     */
+    static std::string shortenFraction(const std::string &s)
+    {
+        const size_t begin = s.find('.');
+        if (begin == std::string::npos) {
+            return s;
+        }
+
+        const size_t end = std::min(s.find_first_not_of("0123456789", begin + 1), s.size());
+        if (end - begin <= 2) {
+            return s;
+        }
+
+        return s.substr(0, begin + 2) + s.substr(end);
+    }
+
     /**
      * @brief    Helper function to validate a leap second value (seconds == 60)
      *           in a time string.
-- 
2.43.0


From 64acb4ab67ca7bb1399d4ef81e4d7b0dd8454124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 44/44] fix: give patterns one meaning with either
 regular-expression back end

---
 include/valijson/internal/regex.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/regex.hpp b/include/valijson/internal/regex.hpp
index 4e5011d..c0b9b12 100644
--- a/include/valijson/internal/regex.hpp
+++ b/include/valijson/internal/regex.hpp
@@ -1,13 +1,23 @@
+#pragma once
+
 #if defined(VALIJSON_USE_BOOST_REGEX) && VALIJSON_USE_BOOST_REGEX
 
+#include <string>
+
 #include <boost/regex.hpp>
 
 namespace valijson {
 namespace internal {
 using boost::regex;
 using boost::regex_match;
-using boost::regex_search;
 using boost::smatch;
+
+// As in ECMA-262, '.' does not match a line terminator, and '^' and '$' match
+// at the ends of the string only
+inline bool regex_search(const std::string &s, const regex &r)
+{
+    return boost::regex_search(s, r, boost::match_not_dot_newline | boost::match_single_line);
+}
 } // namespace internal
 } // namespace valijson
 
-- 
2.43.0

