From 6e2122ff807ee4f425b281232300090043f8b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 01/24] fix: DynamicData built or assigned from references
 copies deeply and accepts itself as source

---
 include/xtypes/DynamicData.hpp | 35 +++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..ff8dc78 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -819,8 +819,10 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
+                                                      << type_->name() << "'.");
+        assign_instance(p_instance(other));
         return *this;
     }
 
@@ -1020,8 +1022,7 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
+        assign_instance(reinterpret_cast<const uint8_t*>(&t));
     }
 
     /// \brief Push a primitive or string value into the DynamicData that represents a SequenceType
@@ -1310,6 +1311,18 @@ protected:
     {
     }
 
+    /// \brief Replaces the managed instance by a copy of another instance of the same type.
+    /// The source can be the managed instance itself.
+    void assign_instance(
+            const uint8_t* source)
+    {
+        if (source != instance_)
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, source);
+        }
+    }
+
 };
 
 /// \brief Class that represents a DynamicType instantation in memory.
@@ -1332,14 +1345,17 @@ public:
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
     {
+        memset(instance_, 0, other.type().memory_size());
+        type_->copy_instance(instance_, p_instance(other));
+        initialize_ = true;
     }
 
     /// \brief Move constructor from a WritableDynamicDataRef
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
@@ -1377,7 +1393,6 @@ public:
     {
         memset(instance_, 0, other.type().memory_size());
         type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
     }
 
     /// \brief Assignment operator
@@ -1387,8 +1402,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(p_instance(other));
         return *this;
     }
 
@@ -1399,8 +1413,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(p_instance(other));
         return *this;
     }
 
-- 
2.43.0


From 1d4e5fcd046c4ae0031e22a30686f0811e59fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 02/24] fix: multidimensional arrays keep their name, convert
 every element and compare floats by value

---
 include/xtypes/ArrayType.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..1e5f05d 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -89,7 +89,7 @@ public:
         {
             content_ = DynamicType::Ptr(content);
         }
-        name_ = "array_" + std::to_string(dimension_) + "_" + content.name();
+        name_ = "array_" + std::to_string(dimension_) + "_" + content_->name();
     }
 
     /// \brief Dimension of the array.
@@ -160,7 +160,7 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
+        if (content_type().is_constructed_type() || content_type().kind() != other_array.content_type().kind())
         {
             for (uint32_t i = 0; i < min_dimension; i++)
             {
@@ -170,10 +170,16 @@ public:
                     other_array.content_type());
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when the type is the same primitive
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
+
+        // The elements without a source are default-initialized.
+        for (size_t i = min_dimension; i < dimension_; i++)
+        {
+            content_type().construct_instance(target + i * block_size);
+        }
     }
 
     virtual void move_instance(
@@ -213,7 +219,7 @@ public:
             const uint8_t* other_instance) const override
     {
         size_t block_size = content_type().memory_size();
-        if (content_type().is_constructed_type())
+        if (!content_type().is_bitwise_comparable())
         {
             bool comp = true;
             for (uint32_t i = 0; i < dimension_; i++)
-- 
2.43.0


From f729e714889a5bb48843e3c1d9126b9f337d1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 03/24] fix: moving a string instance leaves a live source
 object

---
 include/xtypes/StringType.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..dedfa0f 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,9 +101,13 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From 376d96049dae908d03b1be6367715f76a9c0b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 04/24] fix: sequences grow, copy, compare and hash by element
 value

---
 include/xtypes/DynamicType.hpp      | 10 ++++++++
 include/xtypes/SequenceInstance.hpp | 37 ++++++++++++++++++-----------
 include/xtypes/SequenceType.hpp     | 23 +++++-------------
 3 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index fa633d8..aa64393 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -94,6 +94,16 @@ public:
         return (kind_& TypeKind::ENUMERATED_TYPE) != TypeKind::NO_TYPE;
     }
 
+    /// \brief Check if the equality of two values of this type is the equality of their bytes.
+    /// \returns true if it is a primitive type without floating point.
+    bool is_bitwise_comparable() const
+    {
+        return is_primitive_type()
+               && kind_ != TypeKind::FLOAT_32_TYPE
+               && kind_ != TypeKind::FLOAT_64_TYPE
+               && kind_ != TypeKind::FLOAT_128_TYPE;
+    }
+
     /// \brief check the compatibility with other DynamicType.
     /// returns The needed consistency required for the types can be compatibles.
     ///   TypeConsistency::EQUALS means that the types are identically.
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..2e90ce7 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -104,13 +104,15 @@ public:
 
     SequenceInstance(
             SequenceInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
+        other.capacity_ = 0;
         other.memory_ = nullptr;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
@@ -122,7 +124,7 @@ public:
             return false;
         }
 
-        if (content_->is_constructed_type())
+        if (!content_->is_bitwise_comparable())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
@@ -133,7 +135,7 @@ public:
         }
         else //optimization when the type is primitive
         {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            return size_ == 0 || std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
         }
     }
 
@@ -152,10 +154,18 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
+            // The instance to push can be an element of this sequence, which is going to be moved.
+            bool own_element = memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_;
+            size_t offset = own_element ? instance - memory_ : 0;
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            if (own_element)
+            {
+                instance = memory_ + offset;
+            }
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
+        content_->destroy_instance(place); // All elements until capacity are constructed.
         content_->copy_instance(place, instance);
 
         size_++;
@@ -175,14 +185,12 @@ public:
             return;
         }
 
-        realloc(new_size, bounds);
-
-        for (size_t i = size_; i < new_size; i++)
+        if (new_size > capacity_)
         {
-            uint8_t* place = memory_ + i * block_size_;
-            content_->construct_instance(place);
+            realloc(new_size, bounds);
         }
 
+        // All elements until capacity are already default-initialized.
         size_ = new_size;
     }
 
@@ -277,17 +285,18 @@ private:
             realloc(min_size, bounds);
         }
 
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
+        if (content_->is_constructed_type() || content_->kind() != other.content_->kind())
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_);
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other_block_size,
                     *other.content_);
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when the type is the same primitive
         {
             std::memcpy(memory_, other.memory_, min_size * block_size_);
         }
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..de2c9b6 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -121,7 +121,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) SequenceInstance(std::move(*reinterpret_cast<const SequenceInstance*>(source)));
+        new (target) SequenceInstance(std::move(*reinterpret_cast<SequenceInstance*>(source)));
     }
 
     virtual void destroy_instance(
@@ -234,24 +234,13 @@ public:
     virtual uint64_t hash(
             const uint8_t* c_instance) const override
     {
-        if (bounds() > 0)
+        const SequenceInstance& sequence = *reinterpret_cast<const SequenceInstance*>(c_instance);
+        uint64_t h = sequence.size();
+        for (uint32_t i = 0; i < sequence.size(); ++i)
         {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
-            {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
-            }
+            Instanceable::hash_combine(h, content_type().hash(sequence[i]));
         }
-        return 0;
+        return h;
     }
 
 protected:
-- 
2.43.0


From 11e05327c86cc120a7131edab20e86259711bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 05/24] fix: maps copy, move, convert, compare and insert pairs
 by value; map and sequence operands are type checked

---
 include/xtypes/DynamicData.hpp |  27 +++++--
 include/xtypes/MapInstance.hpp | 141 +++++++++++++++++----------------
 include/xtypes/MapType.hpp     |  26 +++++-
 include/xtypes/PairType.hpp    |   2 +-
 4 files changed, 116 insertions(+), 80 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index ff8dc78..5cdfc59 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -251,6 +251,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -944,6 +945,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
@@ -978,7 +980,11 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        if (map.has_key(instance_, p_instance(data)))
+        {
+            return false;
+        }
+        return map.insert_pair_instance(instance_, p_instance(data)) != nullptr;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
@@ -1060,6 +1066,9 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Expected type '" << sequence.content_type().name()
+                                  << "' but '" << data.type().name() << "' received while pushing value.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
@@ -1368,11 +1377,19 @@ public:
             const DynamicType& type)
         : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
     {
-        xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
-                "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
-                << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
         memset(instance_, 0, type.memory_size());
-        type_->copy_instance_from_type(instance_, p_instance(other), other.type());
+        try
+        {
+            xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
+                    "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
+                    << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
+            type_->copy_instance_from_type(instance_, p_instance(other), other.type());
+        }
+        catch (...)
+        {
+            delete[] instance_;
+            throw;
+        }
         initialize_ = true;
     }
 
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..6d797d5 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <vector>
 
 namespace eprosima {
 namespace xtypes {
@@ -67,39 +68,51 @@ public:
 
         if (memory_ != nullptr)
         {
-            copy_content(other, size_);
+            copy_content(other);
         }
     }
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
     /// \param[in] other Map from copy the values.
+    /// \param[in] content Content of the map.
     /// \param[in] bounds Max copied elements.
     /// \pre content and other.content compatibles (see dds::core::xtypes::DynamicType::is_compatible())
     MapInstance(
             const MapInstance& other,
+            const PairType& content,
             uint32_t bounds)
-        : content_(other.content_)
-        , block_size_(content_->memory_size())
-        , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
+        : MapInstance(content, bounds)
     {
-        init_memory(memory_, capacity_);
+        const PairType& other_content = *other.content_;
+        std::vector<uint8_t> pair(block_size_);
+        uint8_t* value = pair.data() + content_->first().memory_size();
 
-        if (memory_ != nullptr)
+        for (uint32_t i = 0; i < other.size_ && (bounds == 0 || size_ < bounds); i++)
         {
-            copy_content(other, size_);
+            const uint8_t* other_pair = other.get_element(i);
+            content_->first().copy_instance_from_type(pair.data(), other_pair, other_content.first());
+            if (contains_key(pair.data())) // Different keys could be converted to the same one.
+            {
+                content_->first().destroy_instance(pair.data());
+                continue;
+            }
+            content_->second().copy_instance_from_type(
+                value, other_pair + other_content.first().memory_size(), other_content.second());
+            place_pair(pair.data(), bounds);
         }
     }
 
     MapInstance(
             MapInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
+        other.capacity_ = 0;
         other.memory_ = nullptr;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
@@ -111,7 +124,7 @@ public:
             return false;
         }
 
-        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+        if (!content_->first().is_bitwise_comparable() || !content_->second().is_bitwise_comparable())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
@@ -122,7 +135,7 @@ public:
         }
         else //optimization when the pair are both primitive
         {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            return size_ == 0 || std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
         }
     }
 
@@ -132,26 +145,37 @@ public:
     }
 
     /// \brief Inserts a key instance into the map, allocating the needed space.
+    /// The value associated to the key is default-initialized.
     /// A reallocation can be done in order to allocate this new value.
     /// A reorder can be done in order to keep the keys in order.
-    /// \param[in] instance Instance of the pair to insert into the map.
+    /// \param[in] instance Instance of the key to insert into the map.
     /// \returns Returns the location of the new instance added.
     uint8_t* insert(
             const uint8_t* instance,
             uint32_t bounds)
     {
-        if (memory_ == nullptr || size_ == capacity_)
-        {
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
-        }
+        xtypes_assert(!contains_key(instance), "Key already exists.");
 
-        uint8_t* place = create_place(instance);
-        content_->first().copy_instance(place, instance);
-        content_->second().construct_instance(place + content_->first().memory_size());
+        std::vector<uint8_t> pair(block_size_);
+        content_->first().copy_instance(pair.data(), instance);
+        content_->second().construct_instance(pair.data() + content_->first().memory_size());
+        return place_pair(pair.data(), bounds);
+    }
 
-        size_++;
+    /// \brief Inserts a pair instance into the map, allocating the needed space.
+    /// A reallocation can be done in order to allocate this new value.
+    /// A reorder can be done in order to keep the keys in order.
+    /// \param[in] instance Instance of the pair to insert into the map.
+    /// \returns Returns the location of the new instance added.
+    uint8_t* insert_pair(
+            const uint8_t* instance,
+            uint32_t bounds)
+    {
+        xtypes_assert(!contains_key(instance), "Key already exists.");
 
-        return place;
+        std::vector<uint8_t> pair(block_size_);
+        content_->copy_instance(pair.data(), instance);
+        return place_pair(pair.data(), bounds);
     }
 
     /// \brief Key access operator.
@@ -254,50 +278,20 @@ private:
     }
 
     void copy_content(
-            const MapInstance& other,
-            uint32_t bounds)
+            const MapInstance& other)
     {
-        size_t other_first_size = other.content_->first().memory_size();
-        size_t other_second_size = other.content_->second().memory_size();
-
-        // Check bytes to copy
-        uint32_t min_capacity = std::min(capacity_, other.capacity_);
-        if (min_capacity == 0)
-        {
-            min_capacity = std::max(capacity_, other.capacity_);
-        }
-        uint32_t min_size = min_capacity == 0 ? other.size_ : std::min(min_capacity, other.size_);
-
-        if (bounds != 0)
-        {
-            // Keep in mind our bounds
-            min_size = std::min(min_size, bounds);
-        }
-
-        if (memory_ == nullptr || // Unbounded maps could reach this point without reserving memory yet.
-                min_size > capacity_)
-        {
-            realloc(min_size, bounds);
-        }
-
-        if (content_->first().is_constructed_type()
-                || content_->second().is_constructed_type()
-                || content_->first().memory_size() != other_first_size
-                || content_->second().memory_size() != other_second_size)
+        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
         {
-            for (uint32_t i = 0; i < min_size; i++)
+            for (uint32_t i = 0; i < size_; i++)
             {
-                content_->copy_instance_from_type(
-                    memory_ + i * block_size_,
-                    other.memory_ + i * other.content_->memory_size(),
-                    *other.content_);
+                content_->destroy_instance(memory_ + i * block_size_);
+                content_->copy_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
             }
         }
-        else //optimization when the pair are both primitive with same size
+        else //optimization when the pair are both primitive
         {
-            std::memcpy(memory_, other.memory_, min_size * block_size_);
+            std::memcpy(memory_, other.memory_, size_ * block_size_);
         }
-        size_ = min_size;
     }
 
     void move_content(
@@ -342,19 +336,26 @@ private:
         return source >= memory_ && target > source && end >= target; // target and source are inside the block of memory
     }
 
-    uint8_t* create_place(
-            const uint8_t* instance)
+    /// \brief Moves a pair into its place, keeping the keys in order. The source pair is destroyed.
+    uint8_t* place_pair(
+            uint8_t* pair,
+            uint32_t bounds)
     {
-        uint8_t* place = find_place(instance);
-        xtypes_assert(
-            size_ == 0 ||
-            place == get_element(size_) ||     // Insert at the end
-            hash(instance) != hash(place),
-            "Key already exists.");
+        if (memory_ == nullptr || size_ == capacity_)
+        {
+            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+        }
+
+        uint8_t* place = find_place(pair);
         if (place != get_element(size_))
         {
             move_content(place + block_size_, place, true);
         }
+        content_->move_instance(place, pair, true); // All elements until capacity are constructed.
+        content_->destroy_instance(pair);
+
+        size_++;
+
         return place;
     }
 
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..93515f4 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -111,11 +111,13 @@ public:
 
         xtypes_assert(
             other.kind() == TypeKind::MAP_TYPE
-            && content_type().name() == static_cast<const MapType&>(other).content_type().name(),
+            && static_cast<const PairType&>(content_type()).first().is_compatible(
+                static_cast<const PairType&>(static_cast<const MapType&>(other).content_type()).first())
+            == TypeConsistency::EQUALS,
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
-        (void) other;
-        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source), bounds());
+        new (target) MapInstance(
+            *reinterpret_cast<const MapInstance*>(source), static_cast<const PairType&>(content_type()), bounds());
     }
 
     virtual void move_instance(
@@ -127,7 +129,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) MapInstance(std::move(*reinterpret_cast<const MapInstance*>(source)));
+        new (target) MapInstance(std::move(*reinterpret_cast<MapInstance*>(source)));
     }
 
     virtual void destroy_instance(
@@ -233,6 +235,22 @@ public:
         return nullptr;
     }
 
+    /// \brief Push a key and its value to a map instance.
+    /// \param[in, out] instance Memory instance representing a MapInstance.
+    /// \param[in] new pair instance to add into the map.
+    /// \returns a instance location representing the new value added
+    /// or nullptr if the map reach the limit.
+    uint8_t* insert_pair_instance(
+            uint8_t* instance,
+            const uint8_t* pair_instance) const
+    {
+        if (get_instance_size(instance) < bounds() || bounds() == 0)
+        {
+            return reinterpret_cast<MapInstance*>(instance)->insert_pair(pair_instance, bounds());
+        }
+        return nullptr;
+    }
+
     /// \brief checks if a key is contained in the map.
     bool has_key(
             uint8_t* instance,
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..ab5d707 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,7 +126,7 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        second_->copy_instance_from_type(target + first_->memory_size(), source + pair.first().memory_size(), pair.second());
     }
 
     void move_instance(
-- 
2.43.0


From a0e40e117b10fbc3e019551f70725be3260624f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 06/24] fix: the active member of a union always follows its
 discriminator

---
 include/xtypes/UnionType.hpp | 326 +++++++++++++++++++++++++----------
 1 file changed, 237 insertions(+), 89 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..070c0cf 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -69,6 +69,7 @@ public:
         , default_value_(default_union_label(discriminator.memory_size()))
         , invalid_value_(default_value_ - 1)
         , default_(invalid_value_)
+        , has_default_(false)
         , maximum_case_member_memory_(0)
     {
         xtypes_assert(
@@ -107,6 +108,8 @@ public:
                                      << "' to UnionType '" << name() << "'.");
         }
 
+        xtypes_assert(!is_default || !has_default_, "Cannot set more than one case member as default.");
+
         Member& inner = insert_member(member);
         Member* disc_ = disc();
 
@@ -137,7 +140,7 @@ public:
 
         if (is_default)
         {
-            xtypes_assert(default_ == invalid_value_, "Cannot set more than one case member as default.");
+            has_default_ = true;
             default_ = first_label;
             if (default_ == default_value_)
             {
@@ -215,7 +218,7 @@ public:
     /// \brief Returns the default case member name.
     std::string get_default() const
     {
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             return labels_.at(default_);
         }
@@ -226,7 +229,7 @@ public:
     bool is_default(
             const std::string& name) const
     {
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             const std::string& member = labels_.at(default_);
             return member == name;
@@ -257,7 +260,7 @@ public:
         disc()->type().construct_instance(instance);
 
         // If a default exists, built it too. And set it as active.
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             const Member& def = member(labels_.at(default_));
             def.type().construct_instance(instance + def.offset());
@@ -265,7 +268,8 @@ public:
         }
         else
         {
-            current_label(instance, invalid_value_);
+            // The invalid value could be used as label by a case. In that case the reserved one isn't used.
+            current_label(instance, labels_.count(invalid_value_) == 0 ? invalid_value_ : default_value_);
         }
     }
 
@@ -274,43 +278,72 @@ public:
             const uint8_t* source) const override
     {
         disc()->type().copy_instance(target, source);
-        int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        const Member* member = active_member(source);
+        if (member != nullptr)
+        {
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
-        {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
-        }
-        else
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            // Resolve one-member struct compatibility
+            const AggregationType& struct_type = static_cast<const AggregationType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
         }
+
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
         const UnionType& other_union = static_cast<const UnionType&>(other);
+        const Member* other_member = other_union.active_member(source);
 
-        Member* disc_ = disc();
-        disc_->type().copy_instance_from_type(target, source, other_union.disc()->type());
+        // The case is selected by the value of the discriminator.
+        const Member* member = nullptr;
+        int64_t label = invalid_value_;
+        if (other_member != nullptr)
+        {
+            if (convert_label(other_union.disc_value(source), label))
+            {
+                member = member_of_label(label);
+            }
+            else if (has_default_ && other_union.is_default(other_member->name()))
+            {
+                label = default_;
+                member = member_of_label(label);
+            }
+        }
 
-        int64_t label = current_label(disc_->type(), target);
-        if (0 < labels_.count(label))
+        if (member == nullptr) // Nothing to copy
+        {
+            construct_instance(target);
+            return;
+        }
+
+        disc()->type().construct_instance(target);
+        current_label(target, label);
+        if (member->type().is_compatible(other_member->type()) != TypeConsistency::NONE)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().copy_instance_from_type(
                 target + member->offset(),
-                source + member->offset(),
-                member->type());
+                source + other_member->offset(),
+                other_member->type());
+        }
+        else
+        {
+            member->type().construct_instance(target + member->offset());
         }
     }
 
@@ -319,26 +352,29 @@ public:
             uint8_t* source,
             bool initialized) const override
     {
-        disc()->type().move_instance(target, source, initialized);
-        int64_t label = current_label(disc()->type(), target);
-        if (0 < labels_.count(label))
+        if (initialized)
+        {
+            // The active member of the target could be different.
+            destroy_instance(target);
+        }
+
+        disc()->type().move_instance(target, source, false);
+        const Member* member = active_member(target);
+        if (member != nullptr)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().move_instance(target + member->offset(),
-                    source + member->offset(), initialized);
+            member->type().move_instance(target + member->offset(), source + member->offset(), false);
         }
     }
 
     virtual void destroy_instance(
             uint8_t* instance) const override
     {
-        disc()->type().destroy_instance(instance);
-        int64_t label = current_label(disc()->type(), instance);
-        if (0 < labels_.count(label))
+        const Member* member = active_member(instance);
+        if (member != nullptr)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().destroy_instance(instance + member->offset());
         }
+        disc()->type().destroy_instance(instance);
     }
 
     virtual bool compare_instance(
@@ -349,10 +385,9 @@ public:
 
         if (result)
         {
-            int64_t label = current_label(disc()->type(), instance);
-            if (0 < labels_.count(label))
+            const Member* member = active_member(instance);
+            if (member != nullptr)
             {
-                Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
                 // Compare active members
                 result = result
                         && member->type().compare_instance(instance + member->offset(),
@@ -400,6 +435,12 @@ public:
                 {
                     consistency |= TypeConsistency::IGNORE_MEMBER_NAMES;
                 }
+                if (get_labels(member.name()) != other_union.get_labels(other_member->name())
+                        || is_default(member.name()) != other_union.is_default(other_member->name()))
+                {
+                    // The same discriminator value could select another case
+                    consistency |= TypeConsistency::IGNORE_MEMBERS;
+                }
                 consistency |= internal_consistency;
             }
             else
@@ -422,9 +463,9 @@ public:
     {
         int64_t disc_value = current_label(disc()->type(), node.instance);
 
-        xtypes_assert(0 < labels_.count(disc_value),
+        const Member* member = active_member(node.instance);
+        xtypes_assert(member != nullptr,
                 "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(disc_value)));
         visitor(node);
         InstanceNode child(
             node,
@@ -451,9 +492,9 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        const Member* member = active_member(instance);
+        if (member != nullptr)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
@@ -515,9 +556,8 @@ protected:
 
         if (type->kind() == TypeKind::ENUMERATION_TYPE)
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
             xtypes_assert(
-                enum_type->is_allowed_value(label),
+                is_allowed_enum_value(*type, label),
                 "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
         }
     }
@@ -615,10 +655,7 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = *reinterpret_cast<uint32_t*>(label_instance);
-                int64_t new_value = static_cast<int64_t>(lvalue);
-                current_label(instance, new_value);
+                current_label(instance, current_label(type, label_instance));
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -728,10 +765,17 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = static_cast<uint32_t>(new_value);
-                uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
-                value = lvalue;
+                switch (disc_->type().memory_size())
+                {
+                    case sizeof(uint8_t):
+                        *instance = static_cast<uint8_t>(new_value);
+                        break;
+                    case sizeof(uint16_t):
+                        *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                        break;
+                    default:
+                        *reinterpret_cast<uint32_t*>(instance) = static_cast<uint32_t>(new_value);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -822,9 +866,17 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
-                disc_value = shrink_label(value, type.memory_size());
+                switch (type.memory_size())
+                {
+                    case sizeof(uint8_t):
+                        disc_value = *reinterpret_cast<const uint8_t*>(instance);
+                        break;
+                    case sizeof(uint16_t):
+                        disc_value = *reinterpret_cast<const uint16_t*>(instance);
+                        break;
+                    default:
+                        disc_value = *reinterpret_cast<const uint32_t*>(instance);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -845,8 +897,7 @@ protected:
             uint8_t* instance,
             uint8_t* label_instance)
     {
-        int64_t new_value = current_label(type, label_instance);
-        return select_disc(instance, new_value);
+        return select_disc(instance, disc_value(type, label_instance));
     }
 
     /// \brief This method switches the current selected discriminator, checking its validity.
@@ -854,24 +905,28 @@ protected:
             uint8_t* instance,
             int64_t value) const
     {
-        if (labels_.count(value) == 0 &&
-                default_ == invalid_value_)
+        int64_t label;
+        if (!convert_label(value, label))
+        {
+            return false; // Not representable by the discriminator.
+        }
+
+        const Member* selected = member_of_label(label);
+        if (selected == nullptr)
         {
             return false;
         }
 
-        // Retrieve current label.
-        int64_t current_value = current_label(disc()->type(), instance);
+        const Member* active = active_member(instance);
+        xtypes_assert(active == nullptr || active == selected,
+                "Cannot switch member using direct disciminator value.");
 
-        if (0 < labels_.count(current_value) &&
-                0 != labels_.at(current_value).compare(labels_.at(
-                    value)))
+        if (active == nullptr)
         {
-            xtypes_assert(false, "Cannot switch member using direct disciminator value.");
-            return false;
+            selected->type().construct_instance(instance + selected->offset());
         }
 
-        current_label(instance, value);
+        current_label(instance, label);
         return true;
     }
 
@@ -885,8 +940,11 @@ protected:
             Member* member = &const_cast<Member&>(AggregationType::member(pair.second));
             if (member->name() == case_member_name)
             {
-                activate_member(instance, member);
-                current_label(instance, pair.first);
+                if (active_member(instance) != member) // Otherwise, keep its current label.
+                {
+                    activate_member(instance, member);
+                    current_label(instance, pair.first);
+                }
                 return true;
             }
         }
@@ -897,7 +955,7 @@ protected:
     bool select_default(
             uint8_t* instance)
     {
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             Member* def = &const_cast<Member&>(member(labels_.at(default_)));
             activate_member(instance, def);
@@ -911,19 +969,17 @@ protected:
     Member& get_current_selection(
             uint8_t* instance)
     {
-        int64_t label = current_label(disc()->type(), instance);
-        xtypes_assert(0 < labels_.count(label), "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        return *member;
+        const Member* member = active_member(instance);
+        xtypes_assert(member != nullptr, "UnionType '" << name() << "' doesn't have a case member selected.");
+        return const_cast<Member&>(*member);
     }
 
     /// \brief This method allows to retrieve the current selected case member (const).
     const Member& get_current_selection(
             const uint8_t* instance) const
     {
-        int64_t label = current_label(disc()->type(), instance);
-        xtypes_assert(0 < labels_.count(label), "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+        const Member* member = active_member(instance);
+        xtypes_assert(member != nullptr, "UnionType '" << name() << "' doesn't have a case member selected.");
         return *member;
     }
 
@@ -933,15 +989,14 @@ protected:
             uint8_t* instance,
             Member* member)
     {
-        int64_t label = current_label(disc()->type(), instance);
-        if (0 < labels_.count(label))
+        const Member* active = active_member(instance);
+        if (active != nullptr)
         {
-            Member* active_member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            if (active_member == member)
+            if (active == member)
             {
                 return;
             }
-            active_member->type().destroy_instance(instance + active_member->offset());
+            active->type().destroy_instance(instance + active->offset());
         }
 
         member->type().construct_instance(instance + member->offset());
@@ -1023,7 +1078,7 @@ protected:
                     break;
                     case TypeKind::UINT_16_TYPE:
                     {
-                        uint32_t value = std::strtoull(label.c_str(), nullptr, base);
+                        uint16_t value = std::strtoull(label.c_str(), nullptr, base);
                         result.emplace_back(static_cast<int64_t>(value));
                     }
                     break;
@@ -1101,7 +1156,6 @@ protected:
                     break;
                     case TypeKind::ENUMERATION_TYPE:
                     {
-                        // TODO: If other enumeration types are added, switch again.
                         uint32_t value = std::strtoull(label.c_str(), nullptr, base);
                         if (value == 0)
                         {
@@ -1111,9 +1165,20 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                const DynamicType& enum_type = disc_->type().kind() == TypeKind::ALIAS_TYPE
+                                        ? static_cast<const AliasType&>(disc_->type()).rget()
+                                        : disc_->type();
+                                switch (enum_type.memory_size())
+                                {
+                                    case sizeof(uint8_t):
+                                        value = static_cast<const EnumeratedType<uint8_t>&>(enum_type).value(label);
+                                        break;
+                                    case sizeof(uint16_t):
+                                        value = static_cast<const EnumeratedType<uint16_t>&>(enum_type).value(label);
+                                        break;
+                                    default:
+                                        value = static_cast<const EnumeratedType<uint32_t>&>(enum_type).value(label);
+                                }
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
@@ -1136,9 +1201,92 @@ private:
     const int64_t default_value_;
     const int64_t invalid_value_;
     int64_t default_;
+    bool has_default_;
     // Aux memory_size_ calculations
     size_t maximum_case_member_memory_;
 
+    /// \brief This method retrieves the case member selected by a label, or nullptr if it doesn't select any.
+    const Member* member_of_label(
+            int64_t label) const
+    {
+        auto it = labels_.find(label);
+        if (it != labels_.end())
+        {
+            return &AggregationType::member(it->second);
+        }
+        return has_default_ ? &AggregationType::member(labels_.at(default_)) : nullptr;
+    }
+
+    /// \brief This method retrieves the active case member of an instance, or nullptr if there is no one.
+    const Member* active_member(
+            const uint8_t* instance) const
+    {
+        return member_of_label(current_label(disc()->type(), instance));
+    }
+
+    /// \brief Value of a discriminator, preserving its sign.
+    int64_t disc_value(
+            const DynamicType& arg_type,
+            const uint8_t* instance) const
+    {
+        const DynamicType& type = arg_type.kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(arg_type).rget()
+                : arg_type;
+        int64_t label = current_label(type, instance);
+        switch (type.kind())
+        {
+            case TypeKind::INT_8_TYPE:
+                return static_cast<int8_t>(label);
+            case TypeKind::INT_16_TYPE:
+                return static_cast<int16_t>(label);
+            case TypeKind::INT_32_TYPE:
+                return static_cast<int32_t>(label);
+            case TypeKind::CHAR_8_TYPE:
+                return static_cast<char>(label);
+            case TypeKind::WIDE_CHAR_TYPE:
+                return static_cast<wchar_t>(label);
+            default:
+                return label;
+        }
+    }
+
+    int64_t disc_value(
+            const uint8_t* instance) const
+    {
+        return disc_value(disc()->type(), instance);
+    }
+
+    /// \brief Converts a value to the label that represents it.
+    /// \returns false if the discriminator isn't able to represent the value.
+    bool convert_label(
+            int64_t value,
+            int64_t& label) const
+    {
+        size_t size = disc()->type().memory_size();
+        label = shrink_label(value, size);
+        size_t shift = (sizeof(int64_t) - size) * 8;
+        int64_t signed_label = static_cast<int64_t>(static_cast<uint64_t>(label) << shift) >> shift;
+        return value == label || value == signed_label;
+    }
+
+    static bool is_allowed_enum_value(
+            const DynamicType& type,
+            int64_t value)
+    {
+        switch (type.memory_size())
+        {
+            case sizeof(uint8_t):
+                return static_cast<const EnumeratedType<uint8_t>&>(type).is_allowed_value(
+                    static_cast<uint8_t>(value));
+            case sizeof(uint16_t):
+                return static_cast<const EnumeratedType<uint16_t>&>(type).is_allowed_value(
+                    static_cast<uint16_t>(value));
+            default:
+                return static_cast<const EnumeratedType<uint32_t>&>(type).is_allowed_value(
+                    static_cast<uint32_t>(value));
+        }
+    }
+
     /// \brief This method retrieves the discriminator Member.
     /// It cannot be stored as a pointer (like active_member_) because the internal AggregationType vector
     /// could be resized or moved, or we being cloned, invalidating the address. Updating it in each case,
-- 
2.43.0


From 1136d08f19262445c3da91de7aa94584516df5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 07/24] fix: enumerations keep their numbering when cloned, do
 not overflow and default to a declared value

---
 include/xtypes/EnumerationType.hpp | 31 +++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..2156287 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -20,6 +20,9 @@
 
 #include <xtypes/EnumeratedType.hpp>
 
+#include <algorithm>
+#include <limits>
+
 namespace eprosima {
 namespace xtypes {
 
@@ -34,10 +37,11 @@ public:
             T value)
     {
         // New values must be always greater than the previous ones
-        xtypes_assert(value >= next_value_,
+        xtypes_assert(value >= next_value_ && !exhausted_,
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
         EnumeratedType<T>::insert_enumerator(name, value);
-        next_value_ = value + 1;
+        exhausted_ = value == std::numeric_limits<T>::max();
+        next_value_ = exhausted_ ? value : T(value + 1);
         return *this;
     }
 
@@ -57,7 +61,12 @@ public:
         else
         {
             auto it = EnumeratedType<T>::values_.begin();
-            return it.second;
+            T first = it->second;
+            for (; it != EnumeratedType<T>::values_.end(); ++it)
+            {
+                first = std::min(first, it->second);
+            }
+            return first;
         }
     }
 
@@ -71,7 +80,23 @@ public:
     }
 
 protected:
+    virtual void construct_instance(
+            uint8_t* instance) const override
+    {
+        *reinterpret_cast<T*>(instance) = default_value();
+    }
+
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        clon->exhausted_ = exhausted_;
+        return clon;
+    }
+
     T next_value_ = T();
+    bool exhausted_ = false; // No values greater than the last one.
 
 };
 
-- 
2.43.0


From e15d0052d5e1c5f9e0fb6d9c845c54d9afce0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 08/24] fix: compatibility of enumerations and one-member
 structures is symmetric and convertible

---
 include/xtypes/PrimitiveType.hpp | 19 ++++++++++++++++---
 include/xtypes/StructType.hpp    | 28 ++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..4863e88 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -170,8 +170,20 @@ protected:
             case TypeKind::UINT_16_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
-            case TypeKind::UINT_32_TYPE:
             case TypeKind::ENUMERATION_TYPE:
+                switch (other.memory_size())
+                {
+                    case sizeof(uint8_t):
+                        *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                        break;
+                    case sizeof(uint16_t):
+                        *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                        break;
+                    default:
+                        *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
+                }
+                break;
+            case TypeKind::UINT_32_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
             case TypeKind::UINT_64_TYPE:
@@ -230,10 +242,11 @@ protected:
         if (other.kind() == TypeKind::ALIAS_TYPE)
         {
             const AliasType& other_alias = static_cast<const AliasType&>(other);
-            return other_alias.is_compatible(*this);
+            return is_compatible(other_alias.rget());
         }
 
-        if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
+        if (other.kind() == TypeKind::STRUCTURE_TYPE // Resolve one-member structs
+                || other.is_enumerated_type())
         {
             return other.is_compatible(*this);
         }
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..68eb2dc 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -121,7 +121,8 @@ public:
 
         if (members().size() == 1) // Resolve one-member struct compatibility
         {
-            if (other.kind() != TypeKind::STRUCTURE_TYPE)
+            if (other.kind() != TypeKind::STRUCTURE_TYPE
+                    || static_cast<const StructType&>(other).members().size() != 1)
             {
                 members().at(0).type().copy_instance_from_type(target, source, other);
                 return;
@@ -133,6 +134,16 @@ public:
 
         const StructType& other_struct = static_cast<const StructType&>(other);
 
+        if (members().size() != 1 && other_struct.members().size() == 1) // Resolve one-member struct compatibility
+        {
+            const DynamicType& wrapped = other_struct.members().at(0).type();
+            if (is_compatible(wrapped) != TypeConsistency::NONE)
+            {
+                copy_instance_from_type(target, source, wrapped);
+                return;
+            }
+        }
+
         auto other_member = other_struct.members().begin();
         for (auto&& member: members())
         {
@@ -147,7 +158,11 @@ public:
             {
                 member.type().construct_instance(target + member.offset());
             }
-            other_member++;
+
+            if (other_member != other_struct.members().end())
+            {
+                other_member++;
+            }
         }
     }
 
@@ -206,6 +221,15 @@ public:
 
         const StructType& other_struct = static_cast<const StructType&>(other);
 
+        if (other_struct.members().size() == 1) // Resolve one-member struct compatibilty
+        {
+            TypeConsistency wrapped = is_compatible(other_struct.members().at(0).type());
+            if (wrapped != TypeConsistency::NONE)
+            {
+                return wrapped;
+            }
+        }
+
         TypeConsistency consistency = TypeConsistency::EQUALS;
         auto other_member = other_struct.members().begin();
         for (auto&& member: members())
-- 
2.43.0


From 56a14f059466f163d48636f8171e49158b51c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 09/24] fix: enumerations reject non-integral values; iterators
 assign their type; empty as_vector; wide characters are printable

---
 include/xtypes/DynamicData.hpp     | 10 ++++++++--
 include/xtypes/DynamicDataImpl.hpp |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 5cdfc59..cb42166 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -140,7 +140,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(type_->memory_size() == sizeof(T) && std::is_integral<T>::value,
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
         }
@@ -325,6 +325,11 @@ public:
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
+
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
@@ -440,6 +445,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
@@ -1020,7 +1026,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(type_->memory_size() == sizeof(T) && std::is_integral<T>::value,
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
             [[maybe_unused]] const EnumeratedType<T>& enum_type = static_cast<const EnumeratedType<T>&>(*type_);
diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..0503522 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -148,7 +148,8 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::WIDE_CHAR_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
-                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
+                    char16_t character = node.data().cast<char16_t>();
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, character));
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
-- 
2.43.0


From 952324ded6a49558f51cad5fc0bd9d713f67143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 10/24] fix: string conversion appends only what was converted
 and rejects truncated input

---
 include/xtypes/StringConversion.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..69f5878 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -105,6 +105,7 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
     // iterate if buffer gets filled
     while (processing)
     {
+        const in* from_start = from_next;
         codecvt_base::result res = choose::translate(
              conv_facet,
              mb,
@@ -129,8 +130,13 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
+                if (from_next == from_start && to_next == buffer)
+                {
+                    // no progress: the input ends in the middle of a character
+                    throw std::range_error("encountered a character that could not be converted");
+                }
                 // insert current buffer content
-                output.append(buffer, buffer_size);
+                output.append(buffer, to_next - buffer);
                 break;
 
             case codecvt_base::error:
-- 
2.43.0


From 3ec67b67dcab553966031160802e8579d4302b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 11/24] fix: dependency nodes compare their names and scopes

---
 include/xtypes/idl/generator_deptree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 0e6f84d..e17149c 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -348,9 +348,9 @@ public:
             const DependencyNode& other) const
     {
         return (kind_ == other.kind_ &&
-                node_.first == node_.first &&
+                node_.first == other.node_.first &&
                 node_.second.get() == other.node_.second.get() &&
-                node_.second.parent().scope() == node_.second.parent().scope());
+                node_.second.parent().scope() == other.node_.second.parent().scope());
     }
 
     /// \brief Not equal comparison operator overload between two DependencyNode objects.
-- 
2.43.0


From d07b35c03ed28785b429f2fb24be1eb82a9b7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 12/24] fix: module scopes resolve qualified names exactly and
 refuse redefinitions without side effects

---
 include/xtypes/idl/Module.hpp | 56 ++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..7078e2b 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -68,7 +68,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return it != inner_.end() ? it->second : nullptr;
     }
 
     size_t submodule_size()
@@ -116,7 +117,7 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        return *inner_.at(submodule);
     }
 
     const Module& operator [] (
@@ -219,9 +220,9 @@ public:
     bool structure(
             StructType& struct_type)
     {
-        if (struct_type.name().find("::") != std::string::npos)
+        if (struct_type.name().find("::") != std::string::npos || structs_.count(struct_type.name()) > 0)
         {
-            return false; // Cannot add a symbol with scoped name.
+            return false; // Cannot add a symbol with scoped name (or already defined).
         }
 
         std::string name = struct_type.name();
@@ -250,6 +251,10 @@ public:
                 structs_.erase(it);
             }
         }
+        else if (structs_.count(struct_type.name()) > 0)
+        {
+            return false; // Already defined.
+        }
 
         std::string name = struct_type.name();
         std::string name_space = scope();
@@ -303,9 +308,9 @@ public:
     bool union_switch(
             UnionType& union_type)
     {
-        if (union_type.name().find("::") != std::string::npos)
+        if (union_type.name().find("::") != std::string::npos || unions_.count(union_type.name()) > 0)
         {
-            return false; // Cannot add a symbol with scoped name.
+            return false; // Cannot add a symbol with scoped name (or already defined).
         }
 
         std::string name = union_type.name();
@@ -334,6 +339,10 @@ public:
                 unions_.erase(it);
             }
         }
+        else if (unions_.count(union_type.name()) > 0)
+        {
+            return false; // Already defined.
+        }
 
         std::string name = union_type.name();
         std::string name_space = scope();
@@ -485,7 +494,13 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
@@ -518,6 +533,10 @@ public:
                 enumerations_32_.erase(it);
             }
         }
+        else if (enumerations_32_.count(enumeration.name()) > 0)
+        {
+            return false; // Already defined.
+        }
 
         std::string name = enumeration.name();
         std::string name_space = scope();
@@ -564,7 +583,7 @@ public:
             const DynamicType::Ptr&& type,
             const std::string& name)
     {
-        if (name.find("::") != std::string::npos || has_alias(name))
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
         {
             return false; // Cannot define alias with scoped name (or already defined).
         }
@@ -577,6 +596,11 @@ public:
     bool add_alias(
             AliasType& alias)
     {
+        if (alias.name().find("::") != std::string::npos || aliases_.count(alias.name()) > 0)
+        {
+            return false; // Cannot define alias with scoped name (or already defined).
+        }
+
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
@@ -586,6 +610,11 @@ public:
     bool add_alias(
             AliasType&& alias)
     {
+        if (alias.name().find("::") != std::string::npos || aliases_.count(alias.name()) > 0)
+        {
+            return false; // Cannot define alias with scoped name (or already defined).
+        }
+
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
@@ -603,7 +632,11 @@ public:
         {
             for (auto [key, mod]: inner_)
             {
-                ret_type = mod.get()->type(name, recursive);
+                DynamicType::Ptr inner_type = mod.get()->type(name, recursive);
+                if (inner_type.get() != nullptr)
+                {
+                    ret_type = inner_type;
+                }
             }
         }
 
@@ -638,7 +671,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (ret_type.get() != nullptr && name.find("::") == 0)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
@@ -759,7 +792,8 @@ protected:
             return std::make_pair<const Module*, std::string>(this, std::move(name));
         }
 
-        if (outer_ != nullptr)
+        // Only an unqualified name is looked for in the enclosing scopes
+        if (outer_ != nullptr && first)
         {
             return outer_->resolve_scope(symbol_name, original_name, true);
         }
-- 
2.43.0


From a1a2e47d7d15bfd30ee42da4203d350e7d8a2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 13/24] fix: unions with a boolean discriminator hold a boolean
 when no label is selected

---
 include/xtypes/UnionType.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 070c0cf..bd52277 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -264,12 +264,13 @@ public:
         {
             const Member& def = member(labels_.at(default_));
             def.type().construct_instance(instance + def.offset());
-            current_label(instance, default_);
+            current_label(instance, unlisted_label(default_));
         }
         else
         {
             // The invalid value could be used as label by a case. In that case the reserved one isn't used.
-            current_label(instance, labels_.count(invalid_value_) == 0 ? invalid_value_ : default_value_);
+            current_label(instance,
+                    unlisted_label(labels_.count(invalid_value_) == 0 ? invalid_value_ : default_value_));
         }
     }
 
@@ -333,7 +334,7 @@ public:
         }
 
         disc()->type().construct_instance(target);
-        current_label(target, label);
+        current_label(target, unlisted_label(label));
         if (member->type().is_compatible(other_member->type()) != TypeConsistency::NONE)
         {
             member->type().copy_instance_from_type(
@@ -943,7 +944,7 @@ protected:
                 if (active_member(instance) != member) // Otherwise, keep its current label.
                 {
                     activate_member(instance, member);
-                    current_label(instance, pair.first);
+                    current_label(instance, unlisted_label(pair.first));
                 }
                 return true;
             }
@@ -959,7 +960,7 @@ protected:
         {
             Member* def = &const_cast<Member&>(member(labels_.at(default_)));
             activate_member(instance, def);
-            current_label(instance, default_);
+            current_label(instance, unlisted_label(default_));
             return true;
         }
         return false;
@@ -1205,6 +1206,23 @@ private:
     // Aux memory_size_ calculations
     size_t maximum_case_member_memory_;
 
+    /// \brief The reserved labels aren't values of a boolean discriminator.
+    /// In that case, they are replaced by the boolean value which isn't used as label, if any.
+    int64_t unlisted_label(
+            int64_t label) const
+    {
+        const DynamicType& type = disc()->type().kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(disc()->type()).rget()
+                : disc()->type();
+
+        if (type.kind() == TypeKind::BOOLEAN_TYPE && (label == default_value_ || label == invalid_value_))
+        {
+            return labels_.count(0) == 0 ? 0 : labels_.count(1) == 0 ? 1 : label;
+        }
+
+        return label;
+    }
+
     /// \brief This method retrieves the case member selected by a label, or nullptr if it doesn't select any.
     const Member* member_of_label(
             int64_t label) const
-- 
2.43.0


From 707f19428dbc629dfff3870239034b2ef17df9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 14/24] fix: equality and hash of arrays ignore aliases of
 their content

---
 include/xtypes/ArrayType.hpp   | 15 ++++-----------
 include/xtypes/DynamicData.hpp |  6 +++---
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 1e5f05d..f902f5b 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -306,19 +306,12 @@ public:
         if (dimension_ > 0)
         {
             uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            uint64_t h = content_type().hash(instance);
+            for (size_t i = 1; i < dimension_; ++i)
             {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < dimension_; ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
+                Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
             }
+            return h;
         }
         return 0;
     }
diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index cb42166..3563cf3 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -84,9 +84,9 @@ public:
     {
         if (type_->kind() == TypeKind::ARRAY_TYPE)
         {
-            // If the data is Array, a fast way to discard equality is that the content or size of the array
-            // is different. We can check both without casting the type by comparing the type (array) name.
-            return type_->name() == other.type().name() && type_->compare_instance(instance_, other.instance_);
+            // If the data is Array, the content or size of the array could be different.
+            return type_->is_compatible(other.type()) == TypeConsistency::EQUALS
+                   && type_->compare_instance(instance_, other.instance_);
         }
         return type_->compare_instance(instance_, other.instance_);
     }
-- 
2.43.0


From 0072272447bea66f6954604090021e4e511ab987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 15/24] fix: primitive types with different representation are
 not equal

---
 include/xtypes/PrimitiveType.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 4863e88..38829b2 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -271,6 +271,14 @@ protected:
         {
             consistency |= TypeConsistency::IGNORE_TYPE_SIGN;
         }
+
+        if (consistency == TypeConsistency::EQUALS
+                && (is_floating_point(kind()) != is_floating_point(other.kind())
+                || (kind() == TypeKind::BOOLEAN_TYPE) != (other.kind() == TypeKind::BOOLEAN_TYPE)))
+        {
+            // The same size and sign, but their values don't have the same representation.
+            consistency = TypeConsistency::IGNORE_TYPE_WIDTH;
+        }
         return consistency;
     }
 
@@ -293,6 +301,14 @@ protected:
         return std::make_shared<PrimitiveType<T>>(use_function_primitive_type{}, this->kind(), this->name());
 
     }
+
+    static bool is_floating_point(
+            TypeKind kind)
+    {
+        return kind == TypeKind::FLOAT_32_TYPE
+               || kind == TypeKind::FLOAT_64_TYPE
+               || kind == TypeKind::FLOAT_128_TYPE;
+    }
 };
 
 /// \brief Helper function to create a PrimitiveType.
-- 
2.43.0


From 3aeec098822e5f8c4610a38763c89ac1df22aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 16/24] fix: reject discriminator values that select no case of
 the union

---
 include/xtypes/UnionType.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index bd52277..1248373 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -907,14 +907,19 @@ protected:
             int64_t value) const
     {
         int64_t label;
-        if (!convert_label(value, label))
+        bool representable = convert_label(value, label);
+        xtypes_assert(representable,
+                "Value '" << value << "' isn't representable by the discriminator of '" << name() << "'.");
+        if (!representable)
         {
-            return false; // Not representable by the discriminator.
+            return false;
         }
 
         const Member* selected = member_of_label(label);
         if (selected == nullptr)
         {
+            xtypes_assert(value == disc_value(instance),
+                    "Value '" << value << "' isn't a label of any case of '" << name() << "'.");
             return false;
         }
 
-- 
2.43.0


From 61694acf487842dd1182e79346faa20a8137cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 17/24] fix: the padding of a long double is not part of its
 hash

---
 include/xtypes/PrimitiveType.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 38829b2..4605f49 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -22,6 +22,7 @@
 #include <xtypes/StructType.hpp>
 
 #include <cstring>
+#include <limits>
 
 namespace eprosima {
 namespace xtypes {
@@ -120,6 +121,21 @@ protected:
         *reinterpret_cast<T*>(instance) = T(0);
     }
 
+    virtual uint64_t hash(
+            const uint8_t* instance) const override
+    {
+        if (kind() != TypeKind::FLOAT_128_TYPE)
+        {
+            return DynamicType::hash(instance);
+        }
+
+        // The padding bytes are not part of the value.
+        const size_t value_size = std::numeric_limits<long double>::digits == 64 ? 10 : sizeof(long double);
+        uint8_t value[sizeof(long double)] = {0};
+        memcpy(value, instance, value_size);
+        return DynamicType::hash(value);
+    }
+
     virtual void destroy_instance(
             uint8_t* /*instance*/) const override
     { //Default does nothing
-- 
2.43.0


From 8b626b114ffe1665df1c348038faafa6fe36bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:34 +0000
Subject: [PATCH 18/24] fix: labels of unions in the generated IDL

Negative labels were written as huge unsigned numbers, and the enumerators of
enumerations behind an alias or of 8 and 16 bits were looked up in the wrong type.
---
 include/xtypes/idl/generator.hpp | 48 ++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2b39ad4..76e0c34 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -216,18 +216,15 @@ inline std::string type_name(
 }
 
 inline std::string label_value(
-        size_t value,
+        int64_t value,
         const DynamicType& type)
 {
-    TypeKind kind = type.kind();
-
-    if (kind == TypeKind::ALIAS_TYPE)
-    {
-        kind = static_cast<const AliasType&>(type).rget().kind();
-    }
-
-    switch (kind)
+    switch (type.kind())
     {
+        case TypeKind::ALIAS_TYPE:
+        {
+            return label_value(value, static_cast<const AliasType&>(type).rget());
+        }
         case TypeKind::BOOLEAN_TYPE:
         {
             return (value == 0) ? "FALSE" : "TRUE";
@@ -249,19 +246,42 @@ inline std::string label_value(
             return ss.str();
         }
         case TypeKind::INT_8_TYPE:
-        case TypeKind::UINT_8_TYPE:
+        {
+            return std::to_string(static_cast<int8_t>(value));
+        }
         case TypeKind::INT_16_TYPE:
-        case TypeKind::UINT_16_TYPE:
+        {
+            return std::to_string(static_cast<int16_t>(value));
+        }
         case TypeKind::INT_32_TYPE:
-        case TypeKind::UINT_32_TYPE:
+        {
+            return std::to_string(static_cast<int32_t>(value));
+        }
         case TypeKind::INT_64_TYPE:
-        case TypeKind::UINT_64_TYPE:
         {
             return std::to_string(value);
         }
+        case TypeKind::UINT_8_TYPE:
+        case TypeKind::UINT_16_TYPE:
+        case TypeKind::UINT_32_TYPE:
+        case TypeKind::UINT_64_TYPE:
+        {
+            return std::to_string(static_cast<uint64_t>(value));
+        }
         case TypeKind::ENUMERATION_TYPE:
         {
-            return static_cast<const EnumerationType<uint32_t>&>(type).enumerator(static_cast<uint32_t>(value));
+            switch (type.memory_size())
+            {
+                case sizeof(uint8_t):
+                    return static_cast<const EnumeratedType<uint8_t>&>(type).enumerator(
+                        static_cast<uint8_t>(value));
+                case sizeof(uint16_t):
+                    return static_cast<const EnumeratedType<uint16_t>&>(type).enumerator(
+                        static_cast<uint16_t>(value));
+                default:
+                    return static_cast<const EnumeratedType<uint32_t>&>(type).enumerator(
+                        static_cast<uint32_t>(value));
+            }
         }
         default:
             xtypes_assert(false, "Unsupported type found while generating label value: " << type.name());
-- 
2.43.0


From d6773c6c32b03a8ce4f6e6483721da532e1574e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:34 +0000
Subject: [PATCH 19/24] fix: boolean, character and wide string constants in
 the generated IDL

Booleans were written as numbers (read back as FALSE), characters as their codes
and wide strings were empty.
---
 include/xtypes/idl/generator.hpp | 38 +++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 76e0c34..88c54fa 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -482,7 +482,43 @@ inline std::string get_const_value(
         suffix = "'";
     }
 
-    ss << prefix << data.cast<std::string>() << suffix;
+    switch (data.type().kind())
+    {
+        case TypeKind::BOOLEAN_TYPE:
+        {
+            ss << (data.value<bool>() ? "TRUE" : "FALSE");
+            break;
+        }
+        case TypeKind::CHAR_8_TYPE:
+        {
+            ss << prefix << data.value<char>() << suffix;
+            break;
+        }
+        case TypeKind::CHAR_16_TYPE:
+        case TypeKind::WIDE_CHAR_TYPE:
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, data.cast<char16_t>()));
+            ss << prefix << std::string(aux.begin(), aux.end()) << suffix;
+            break;
+        }
+        case TypeKind::WSTRING_TYPE:
+        {
+            std::wstring text = data.value<std::wstring>();
+            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(text.begin(), text.end()));
+            ss << prefix << std::string(aux.begin(), aux.end()) << suffix;
+            break;
+        }
+        case TypeKind::STRING16_TYPE:
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(data.value<std::u16string>());
+            ss << prefix << std::string(aux.begin(), aux.end()) << suffix;
+            break;
+        }
+        default:
+        {
+            ss << prefix << data.cast<std::string>() << suffix;
+        }
+    }
 
     return ss.str();
 }
-- 
2.43.0


From ac8b27a15e1deb339a7c583f36fe318f6c3fdc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:34 +0000
Subject: [PATCH 20/24] fix: declare types before their use in the generated
 IDL

Only dependencies between elements of the same kind were considered, those of the
ancestors were not, and neither were those of types inside aliased collections.
---
 include/xtypes/idl/generator_deptree.hpp | 156 ++++++++++++++---------
 1 file changed, 99 insertions(+), 57 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index e17149c..ce7aea8 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -111,8 +111,18 @@ public:
         , node_(node)
         , kind_(std::move(kind))
         , iterated_(false)
+        , visited_(false)
     {}
 
+    /// \brief Mark this DependencyNode as visited, prior to generating those it depends on.
+    /// \returns A boolean value indicating if it hadn't been visited before.
+    bool visit()
+    {
+        bool first = !visited_;
+        visited_ = true;
+        return first;
+    }
+
     /// \brief Check if this DependencyNode has been iterated.
     /// "Iterated" means that its IDL representation has already been generated.
     /// \returns A boolean value indicating if object has been iterated or not.
@@ -368,6 +378,7 @@ private:
     const ModuleElement& node_;
     ModuleElementKind kind_;
     bool iterated_;
+    bool visited_;
     NodeRefSet ancestors_;
     ModuleRefSet parent_modules_;
     ModuleRefSet child_modules_;
@@ -393,11 +404,21 @@ public:
             const Module& module,
             DependencyModule* outer)
         : iterated_(false)
+        , visited_(false)
         , module_(module)
         , d_root_(d_root)
         , d_outer_(outer)
     {}
 
+    /// \brief Mark this DependencyModule as visited, prior to generating those it depends on.
+    /// \returns A boolean value indicating if it hadn't been visited before.
+    bool visit()
+    {
+        bool first = !visited_;
+        visited_ = true;
+        return first;
+    }
+
     /// \brief Check out if this DependencyModule has already been iterated.
     /// "Iterated" means that its IDL has been already generated (avoid duplicity).
     /// \returns A boolean value indicating if its IDL has been generated or not.
@@ -877,7 +898,26 @@ public:
     {
         if (opts_for_dependency_setting(type))
         {
-            set_dependency(node, master, node.kind());
+            set_dependency(node, master, element_kind(type));
+        }
+    }
+
+    /// \brief Kind of the Module's content element that declares a type.
+    /// \param[in] type A DynamicType which opts for dependency setting.
+    /// \returns The corresponding ModuleElementKind.
+    inline static ModuleElementKind element_kind(
+            const DynamicType& type)
+    {
+        switch (type.kind())
+        {
+            case TypeKind::ALIAS_TYPE:
+                return ModuleElementKind::xALIAS;
+            case TypeKind::ENUMERATION_TYPE:
+                return ModuleElementKind::xENUM;
+            case TypeKind::UNION_TYPE:
+                return ModuleElementKind::xUNION;
+            default:
+                return ModuleElementKind::xSTRUCT;
         }
     }
 
@@ -890,7 +930,11 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                set_dynamic_type_dependency(node, *alias, alias->name());
+                alias->for_each([&](const DynamicType::TypeNode& tnode)
+                {
+                    const DynamicType& type = tnode.type();
+                    set_dynamic_type_dependency(node, type, type.name());
+                });
                 break;
             }
 
@@ -1020,56 +1064,10 @@ public:
         }
     }
 
-    /// \brief Generate IDL sentence for the DependencyNode contents of this module.
-    /// \param[in] tabs Padding relative to module's scope.
-    /// \param[in] is_child If set, generate IDL sentence only for DependencyNode that has as child
-    /// the "is_child" DependencyModule reference.
-    /// \returns An string with the generated IDL.
-    std::string generate_idl_module(
-            unsigned int tabs = 0,
-            std::map<std::string, std::string>* struct_idl = nullptr)
-    {
-        std::stringstream ss;
-
-        for (auto& node : node_set_)
-        {
-            if (node.has_ancestors())
-            {
-                for (const auto& ancestor : node.ancestors())
-                {
-                    std::stringstream ss_ancestor;
-                    ss_ancestor << ancestor.get().generate_idl_sentence(tabs, struct_idl);
-
-                    if (ss_ancestor.rdbuf()->in_avail())
-                    {
-                        ss << ss_ancestor.str() << std::endl;
-                    }
-                }
-            }
-
-            std::stringstream ss_node;
-            ss_node << node.generate_idl_sentence(tabs, struct_idl);
-
-            if (ss_node.rdbuf()->in_avail() &&
-                (!all_nodes_iterated() || (!d_inner_.empty() && !all_inner_iterated())))
-            {
-                ss_node << std::endl;
-            }
-
-            ss << ss_node.str();
-
-            if (struct_idl != nullptr)
-            {
-                (*struct_idl)[node.type().name()] = ss_node.str();
-            }
-        }
-
-        return ss.str();
-    }
-
 private:
 
     bool iterated_;
+    bool visited_;
     const Module& module_;
     const std::shared_ptr<DependencyModule>& d_root_;
     DependencyModule* d_outer_;
@@ -1132,7 +1130,7 @@ public:
             unsigned int tabs=0,
             std::map<std::string, std::string>* module_idl = nullptr) const
     {
-        if (dep_mod->iterated())
+        if (!dep_mod->visit())
         {
             return std::string();
         }
@@ -1160,12 +1158,7 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
-                    ss << outer->generate_idl_sentence(onode, tabs, module_idl);
-
-                    if (!outer->all_nodes_iterated())
-                    {
-                        ss << std::endl;
-                    }
+                    ss << generate_idl_node(outer, onode, tabs, module_idl);
                 }
             }
         }
@@ -1206,7 +1199,10 @@ public:
             }
         }
 
-        ss << dep_mod->generate_idl_module(root ? 0 : tabs + 1, module_idl);
+        for (auto& node : dep_mod->node_set())
+        {
+            ss << generate_idl_node(dep_mod, node, root ? 0 : tabs + 1, module_idl);
+        }
 
         // Iterate over inner DependencyModule list
         for (const auto& inner : dep_mod->inner())
@@ -1276,6 +1272,52 @@ public:
         return ss.str();
     }
 
+    /// \brief Generate the IDL sentence of a DependencyNode, preceded by those of the modules and
+    /// the ancestors (of any degree) it depends on which haven't been generated yet.
+    /// \param[in] dep_mod The DependencyModule the node belongs to.
+    /// \param[in] node The DependencyNode.
+    /// \param[in] tabs Padding of the contents of the module.
+    /// \returns An string with the generated IDL.
+    std::string generate_idl_node(
+            DependencyModule* dep_mod,
+            DependencyNode& node,
+            unsigned int tabs,
+            std::map<std::string, std::string>* module_idl = nullptr) const
+    {
+        if (!node.visit())
+        {
+            return std::string();
+        }
+
+        std::stringstream ss;
+
+        for (const auto& parent : node.parent_modules())
+        {
+            std::string parent_idl = generate_idl(parent.lock().get(), tabs, module_idl);
+            ss << parent_idl << (parent_idl.empty() ? "" : "\n");
+        }
+
+        for (const auto& ancestor : node.ancestors())
+        {
+            ss << generate_idl_node(dep_mod, ancestor.get(), tabs, module_idl);
+        }
+
+        std::string node_idl = dep_mod->generate_idl_sentence(node, tabs, module_idl);
+
+        if (!node_idl.empty() && (!dep_mod->all_nodes_iterated() || !dep_mod->all_inner_iterated()))
+        {
+            node_idl += "\n";
+        }
+
+        if (module_idl != nullptr)
+        {
+            (*module_idl)[node.type().name()] = node_idl;
+        }
+
+        ss << node_idl;
+        return ss.str();
+    }
+
     /// \brief Helper method to generate IDL from root Module of this ModuleDependencyTree object.
     /// \returns A string representing IDL definition for root Module.
     inline std::string generate_idl(
-- 
2.43.0


From 8ba3beb31ef7f1f7b1c5adfe58e9fdddba3eb778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 21/24] fix: wide characters beyond the basic plane in text
 dumps and generated constants

They were truncated to 16 bits, which gives another character.
---
 include/xtypes/DynamicDataImpl.hpp  | 11 +++++++++--
 include/xtypes/StringConversion.hpp | 27 +++++++++++++++++++++++++++
 include/xtypes/idl/generator.hpp    | 11 ++++++++---
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 0503522..f691579 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -145,7 +145,6 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 ss << "<" << type_name << ">  " << node.data().value<char>();
                 break;
             case TypeKind::CHAR_16_TYPE:
-            case TypeKind::WIDE_CHAR_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
                     char16_t character = node.data().cast<char16_t>();
@@ -153,6 +152,14 @@ inline std::string ReadableDynamicDataRef::to_string() const
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
+            case TypeKind::WIDE_CHAR_TYPE:
+                {
+                    ss << "<" << type_name << ">  ";
+                    wchar_t character = node.data().value<wchar_t>();
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(std::wstring(1, character)));
+                    ss << std::string(aux.begin(), aux.end());
+                    break;
+                }
             case TypeKind::INT_8_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int8_t>();
                 break;
@@ -193,7 +200,7 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 {
                     ss << "<" << type_name << ">  ";
                     auto aux = node.data().value<std::wstring>();
-                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(std::u16string(aux.begin(), aux.end()));
+                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(aux));
                     ss << std::string(aux2.begin(), aux2.end());
                     break;
                 }
diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 69f5878..94b0299 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -18,7 +18,10 @@
 #ifndef EPROSIMA_STRING_CONVERSION_HPP_
 #define EPROSIMA_STRING_CONVERSION_HPP_
 
+#include <cstdint>
 #include <locale>
+#include <stdexcept>
+#include <string>
 #include <version>
 
 #ifdef __cpp_char8_t
@@ -157,6 +160,30 @@ std::basic_string<out> code_conversion_tool(const std::basic_string<in>& input)
     return code_conversion_tool<out>(std::basic_string_view<in>{input});
 }
 
+/// \brief UTF-16 representation of a wide string, whose characters may not fit into one char16_t.
+inline std::u16string wide_to_utf16(const std::wstring& input)
+{
+    std::u16string output;
+    for (wchar_t character : input)
+    {
+        uint32_t code = static_cast<uint32_t>(character);
+        if (sizeof(wchar_t) == sizeof(char16_t) || code <= 0xFFFF)
+        {
+            output.push_back(static_cast<char16_t>(code));
+        }
+        else if (code <= 0x10FFFF)
+        {
+            output.push_back(static_cast<char16_t>(0xD7C0 + (code >> 10)));
+            output.push_back(static_cast<char16_t>(0xDC00 + (code & 0x3FF)));
+        }
+        else
+        {
+            throw std::range_error("encountered a character that could not be converted");
+        }
+    }
+    return output;
+}
+
 } // eprosima
 
 #endif // EPROSIMA_STRING_CONVERSION_HPP_
diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 88c54fa..8ec0718 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -495,16 +495,21 @@ inline std::string get_const_value(
             break;
         }
         case TypeKind::CHAR_16_TYPE:
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, data.value<char16_t>()));
+            ss << prefix << std::string(aux.begin(), aux.end()) << suffix;
+            break;
+        }
         case TypeKind::WIDE_CHAR_TYPE:
         {
-            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, data.cast<char16_t>()));
+            std::wstring text(1, data.value<wchar_t>());
+            auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(text));
             ss << prefix << std::string(aux.begin(), aux.end()) << suffix;
             break;
         }
         case TypeKind::WSTRING_TYPE:
         {
-            std::wstring text = data.value<std::wstring>();
-            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(text.begin(), text.end()));
+            auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(data.value<std::wstring>()));
             ss << prefix << std::string(aux.begin(), aux.end()) << suffix;
             break;
         }
-- 
2.43.0


From 5917e40fe3afb42ca7090f8422237d4a8df6ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:17 +0000
Subject: [PATCH 22/24] fix: compute the scope of the outer module once

Module::scope() asked the outer module for its scope twice at every level,
so its cost doubled with each level of nesting.
---
 include/xtypes/idl/Module.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 7078e2b..37dcc80 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -133,11 +133,8 @@ public:
 
     std::string scope() const
     {
-        if (outer_ != nullptr && !outer_->scope().empty())
-        {
-            return outer_->scope() + "::" + name_;
-        }
-        return name_;
+        const std::string outer_scope = outer_ != nullptr ? outer_->scope() : std::string();
+        return outer_scope.empty() ? name_ : outer_scope + "::" + name_;
     }
 
     bool has_symbol(
-- 
2.43.0


From e832fd1df92aee416f8125d2d5a9957d2df56ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 23/24] fix: sizes of collections of 4 GiB or more

The size in bytes of the memory of a sequence or map was computed with 32 bits,
and a desired size over 2^32-1 elements was silently truncated: resizing a
sequence<uint32> to 2^30 elements wrote out of bounds.
---
 include/xtypes/MapInstance.hpp      |  2 +-
 include/xtypes/SequenceInstance.hpp | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 6d797d5..9db4c7f 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -235,7 +235,7 @@ private:
     friend class MapType;
 
     std::shared_ptr<const PairType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 2e90ce7..7b77e55 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <limits>
 
 namespace eprosima {
 namespace xtypes {
@@ -157,7 +158,7 @@ public:
             // The instance to push can be an element of this sequence, which is going to be moved.
             bool own_element = memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_;
             size_t offset = own_element ? instance - memory_ : 0;
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            realloc((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
             if (own_element)
             {
                 instance = memory_ + offset;
@@ -217,7 +218,7 @@ private:
     friend class SequenceType;
 
     std::shared_ptr<const DynamicType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -227,6 +228,8 @@ private:
             uint32_t bounds)
     {
         size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+        xtypes_assert(new_capacity <= std::numeric_limits<uint32_t>::max(),
+                "A sequence cannot hold " << new_capacity << " elements.");
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
@@ -329,9 +332,9 @@ private:
         {
             if (content_->is_constructed_type())
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
+                for (uint32_t i = capacity_; i > 0; i--)
                 {
-                    content_->destroy_instance(memory_ + i * block_size_);
+                    content_->destroy_instance(memory_ + (i - 1) * block_size_);
                 }
             }
 
-- 
2.43.0


From 415a1ecc8a6c00d3d038024a318b2a74694810e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:42 +0000
Subject: [PATCH 24/24] fix: write wide character labels beyond the basic plane
 as that character in generated IDL

---
 include/xtypes/idl/generator.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 8ec0718..08ba16c 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -237,7 +237,6 @@ inline std::string label_value(
             return ss.str();
         }
         case TypeKind::CHAR_16_TYPE:
-        case TypeKind::WIDE_CHAR_TYPE:
         {
             char16_t temp = static_cast<char16_t>(value);
             std::stringstream ss;
@@ -245,6 +244,14 @@ inline std::string label_value(
             ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
             return ss.str();
         }
+        case TypeKind::WIDE_CHAR_TYPE:
+        {
+            std::wstring text(1, static_cast<wchar_t>(value));
+            std::stringstream ss;
+            auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(text));
+            ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
+            return ss.str();
+        }
         case TypeKind::INT_8_TYPE:
         {
             return std::to_string(static_cast<int8_t>(value));
-- 
2.43.0

