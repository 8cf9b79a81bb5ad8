From 748557422ed3549fd3507e66a2c84a8390c17913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:36 +0000
Subject: [PATCH 01/42] fix: assigning a Ptr released the old object before
 reading the source, so p = p->next read freed memory

---
 Source/Primitives/Pointer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..666be93 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -230,8 +230,7 @@ Ptr
 		/// <param name="pointer">The nullptr.</param>
 		Ptr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmptyNoIncDec();
+			Ptr<T> old(std::move(*this));
 			return *this;
 		}
 
@@ -242,7 +241,7 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				Ptr<T> old(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -259,7 +258,7 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				Ptr<T> old(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
-- 
2.43.0


From a532d332c8db3488c8588cc37dda25cc6c60910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 02/42] fix: Ptr::Detach on a shared pointer kept its reference
 and decremented the counter twice

---
 Source/Primitives/Pointer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 666be93..9b28e79 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -212,6 +212,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
-- 
2.43.0


From fd95ecd367971d9b8a7354810fd73890f25ff372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:57 +0000
Subject: [PATCH 03/42] fix: assigning a ComPtr released the old interface
 first, so p = p->next read freed memory and a failed allocation left it
 dangling

---
 Source/Primitives/Pointer.h | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 9b28e79..c85e2e4 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -402,31 +402,21 @@ ComPtr
 
 		ComPtr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmpty();
+			ComPtr<T> old(std::move(*this));
 			return *this;
 		}
 
 		ComPtr<T>& operator=(T* pointer)
 		{
-			Dec();
-			if (pointer)
-			{
-				counter = new atomic_vint(1);
-				reference = pointer;
-			}
-			else
-			{
-				SetEmpty();
-			}
-			return *this;
+			return operator=(ComPtr<T>(pointer));
 		}
 
 		ComPtr<T>& operator=(const ComPtr<T>& pointer)
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// release the old object at last, "pointer" could be stored inside it
+				ComPtr<T> old(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				Inc();
@@ -438,7 +428,8 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// release the old object at last, "pointer" could be stored inside it
+				ComPtr<T> old(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				pointer.SetEmpty();
-- 
2.43.0


From 074f4a0d4bbabc48af601ee6b37ea99cfa0d0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:54 +0000
Subject: [PATCH 04/42] fix: Ptr(new T) leaked the object when its reference
 counter could not be allocated

---
 Source/Primitives/Pointer.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index c85e2e4..d681c35 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -136,7 +136,16 @@ Ptr
 		{
 			if (pointer)
 			{
-				counter = ReferenceCounterOperator<T>::CreateCounter(pointer);
+				try
+				{
+					counter = ReferenceCounterOperator<T>::CreateCounter(pointer);
+				}
+				catch (...)
+				{
+					// Ptr(new T) has no other owner for the object
+					ReferenceCounterOperator<T>::DeleteReference(nullptr, pointer);
+					throw;
+				}
 				reference = pointer;
 				originalReference = pointer;
 				originalDestructor = &ReferenceCounterOperator<T>::DeleteReference;
-- 
2.43.0


From 4b8a3cc4d0a5f2d75b0e59ba26d908122b19d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 05/42] fix: a string operation that ran out of memory leaked,
 freed static memory or left a dangling buffer

---
 Source/Strings/String.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..d5b5159 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -81,6 +81,19 @@ namespace vl
 
 	private:
 
+		static atomic_vint* CreateCounter(T* ownedBuffer)
+		{
+			try
+			{
+				return new atomic_vint(1);
+			}
+			catch (...)
+			{
+				delete[] ownedBuffer;
+				throw;
+			}
+		}
+
 		void Inc()const
 		{
 			if(counter)
@@ -120,11 +133,11 @@ namespace vl
 			if (index == 0 && count == length) return source;
 
 			ObjectString<T> str;
-			str.counter = new atomic_vint(1);
 			str.start = 0;
 			str.length = length - count + source.length;
 			str.realLength = str.length;
 			str.buffer = new T[str.length + 1];
+			str.counter = CreateCounter(str.buffer);
 			memcpy(str.buffer, buffer + start, sizeof(T) * index);
 			memcpy(str.buffer + index, source.buffer + source.start, sizeof(T) * source.length);
 			memcpy(str.buffer + index + source.length, (buffer + start + index + count), sizeof(T) * (length - index - count));
@@ -183,10 +196,10 @@ namespace vl
 		ObjectString(const T* _buffer)
 		{
 			CHECK_ERROR(_buffer != 0, L"ObjectString<T>::ObjectString(const T*)#Cannot construct a string from nullptr.");
-			counter = new atomic_vint(1);
 			start = 0;
 			length = CalculateLength(_buffer);
 			buffer = new T[length + 1];
+			counter = CreateCounter(buffer);
 			memcpy(buffer, _buffer, sizeof(T) * (length + 1));
 			realLength = length;
 		}
@@ -200,7 +213,7 @@ namespace vl
 			CHECK_ERROR(_length >= 0, L"ObjectString<T>::TakeOver(T*, vint)#Length should not be negative.");
 			CHECK_ERROR(_buffer[_length] == 0, L"ObjectString<T>::TakeOver(T*, vint)#Buffer is not properly zero-terminated.");
 			ObjectString<T> str;
-			str.counter = new atomic_vint(1);
+			str.counter = CreateCounter(_buffer);
 			str.length = _length;
 			str.realLength = _length;
 			str.buffer = _buffer;
@@ -231,7 +244,7 @@ namespace vl
 				str.buffer = new T[_length + 1];
 				memcpy(str.buffer, _buffer, _length * sizeof(T));
 				str.buffer[_length] = 0;
-				str.counter = new atomic_vint(1);
+				str.counter = CreateCounter(str.buffer);
 				str.start = 0;
 				str.length = _length;
 				str.realLength = _length;
@@ -292,9 +305,10 @@ namespace vl
 				T* newBuffer=new T[length+1];
 				memcpy(newBuffer, buffer+start, sizeof(T)*length);
 				newBuffer[length]=0;
+				atomic_vint* newCounter=CreateCounter(newBuffer);
 				Dec();
 				buffer=newBuffer;
-				counter=new atomic_vint(1);
+				counter=newCounter;
 				start=0;
 				realLength=length;
 			}
-- 
2.43.0


From 254e50d65b6d1fce064fe733d343b346d417f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 06/42] fix: wlower and wupper truncated every character to 8
 bits on Linux

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..5fa2a82 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From c4c9d13d426d08491e9c6160d8cb2ab8bcd238f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:33 +0000
Subject: [PATCH 07/42] fix: containers wrote through a null pointer when
 malloc failed

---
 Source/Collections/List.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..c2f490a 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -7,6 +7,7 @@ Licensed under https://github.com/vczh-libraries/License
 #define VCZH_COLLECTIONS_LIST
 
 #include <string.h>
+#include <new>
 #include "Interfaces.h"
 
 #ifdef VCZH_CHECK_MEMORY_LEAKS_NEW
@@ -110,7 +111,9 @@ Memory Management
 			T* AllocateBuffer(vint size)
 			{
 				if (size <= 0) return nullptr;
-				return (T*)malloc(sizeof(T) * size);
+				T* buffer = (T*)malloc(sizeof(T) * size);
+				if (!buffer) throw std::bad_alloc();
+				return buffer;
 			}
 
 			template<typename T>
@@ -135,7 +138,9 @@ Memory Management
 					vint newCapacity = capacity * 5 / 8;
 					if (newCount < newCapacity)
 					{
-						T* newBuffer = AllocateBuffer<T>(newCapacity);
+						// elements are already removed, keep the current buffer if there is no memory for a smaller one
+						T* newBuffer = (T*)malloc(sizeof(T) * newCapacity);
+						if (!newBuffer) return;
 						CallMoveCtors(newBuffer, items, newCount);
 						CallDtors(items, newCount);
 						DeallocateBuffer(items);
-- 
2.43.0


From fd9ac8ff93f93c1d8973e99217546765f0099eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:52 +0000
Subject: [PATCH 08/42] fix: adding an element of a list to itself read freed
 memory, and a throwing copy left an uninitialized element behind

---
 Source/Collections/List.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index c2f490a..4ebc94f 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -182,6 +182,23 @@ Memory Management
 				count = newCount;
 			}
 
+			template<typename T>
+			void InsertMovedItem(T*& items, vint& capacity, vint& count, vint index, T& item)
+			{
+				// item could be an element in this buffer, it should be taken before elements are moved or released
+				T taken(std::move(item));
+				try
+				{
+					InsertUninitializedItems(items, capacity, count, index, 1);
+				}
+				catch (...)
+				{
+					item = std::move(taken);
+					throw;
+				}
+				CallMoveCtors(&items[index], &taken, 1);
+			}
+
 			template<typename TItem, typename TArg, bool = std::is_same_v<std::remove_cvref_t<TArg>, std::remove_cvref_t<TItem>>>
 			struct Accept_;
 
@@ -610,8 +627,8 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
-				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
+				T copied(item);
+				memory_management::InsertMovedItem(this->buffer, this->capacity, this->count, index, copied);
 				return index;
 			}
 
@@ -622,8 +639,7 @@ List
 			vint Insert(vint index, T&& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
-				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
+				memory_management::InsertMovedItem(this->buffer, this->capacity, this->count, index, item);
 				return index;
 			}
 
@@ -734,16 +750,15 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
-				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
+				T copied(item);
+				memory_management::InsertMovedItem(this->buffer, this->capacity, this->count, index, copied);
 				return index;
 			}
 
 			vint Insert(vint index, T&& item)
 			{
 				bool uninitialized = false;
-				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
+				memory_management::InsertMovedItem(this->buffer, this->capacity, this->count, index, item);
 				return index;
 			}
 
-- 
2.43.0


From 33ec58d69019e9563a71c7c2a4eff89a7e59674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:16 +0000
Subject: [PATCH 09/42] fix: an array leaked elements and storage when an
 element constructor threw

---
 Source/Collections/List.h | 59 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 4ebc94f..d39ada4 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -25,14 +25,26 @@ Memory Management
 
 		namespace memory_management
 		{
+			template<typename T>
+			void CallDtors(T* items, vint count);
+
 			template<typename T>
 			void CallDefaultCtors(T* items, vint count)
 			{
 				if constexpr (!std::is_trivially_constructible_v<T>)
 				{
-					for (vint i = 0; i < count; i++)
+					vint i = 0;
+					try
+					{
+						for (; i < count; i++)
+						{
+							new(&items[i])T();
+						}
+					}
+					catch (...)
 					{
-						new(&items[i])T();
+						CallDtors(items, i);
+						throw;
 					}
 				}
 			}
@@ -42,9 +54,18 @@ Memory Management
 			{
 				if constexpr (!std::is_trivially_copy_constructible_v<T>)
 				{
-					for (vint i = 0; i < count; i++)
+					vint i = 0;
+					try
 					{
-						new(&items[i])T(source[i]);
+						for (; i < count; i++)
+						{
+							new(&items[i])T(source[i]);
+						}
+					}
+					catch (...)
+					{
+						CallDtors(items, i);
+						throw;
 					}
 				}
 				else
@@ -342,7 +363,15 @@ Array
 			{
 				CHECK_ERROR(size >= 0, L"Array<T>::Array(vint)#Size should not be negative.");
 				this->buffer = memory_management::AllocateBuffer<T>(size);
-				memory_management::CallDefaultCtors(this->buffer, size);
+				try
+				{
+					memory_management::CallDefaultCtors(this->buffer, size);
+				}
+				catch (...)
+				{
+					memory_management::DeallocateBuffer(this->buffer);
+					throw;
+				}
 				this->count = size;
 			}
 
@@ -354,7 +383,15 @@ Array
 			{
 				CHECK_ERROR(size >= 0, L"Array<T>::Array(const T*, vint)#Size should not be negative.");
 				this->buffer = memory_management::AllocateBuffer<T>(size);
-				memory_management::CallCopyCtors(this->buffer, _buffer, size);
+				try
+				{
+					memory_management::CallCopyCtors(this->buffer, _buffer, size);
+				}
+				catch (...)
+				{
+					memory_management::DeallocateBuffer(this->buffer);
+					throw;
+				}
 				this->count = size;
 			}
 
@@ -460,8 +497,16 @@ Array
 				}
 				else
 				{
+					try
+					{
+						memory_management::CallDefaultCtors(&newBuffer[this->count], size - this->count);
+					}
+					catch (...)
+					{
+						memory_management::DeallocateBuffer(newBuffer);
+						throw;
+					}
 					memory_management::CallMoveCtors(newBuffer, this->buffer, this->count);
-					memory_management::CallDefaultCtors(&newBuffer[this->count], size - this->count);
 				}
 
 				memory_management::CallDtors(this->buffer, this->count);
-- 
2.43.0


From f1d50cf550bd361c71c5b111cf5c9269a6dbae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 10/42] fix: a negative count was accepted by RemoveRange,
 Remove and Sub, and corrupted memory

---
 Source/Collections/List.h | 2 +-
 Source/Strings/String.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index d39ada4..cb360d3 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -589,7 +589,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index d5b5159..c5436f1 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -476,7 +476,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -494,7 +494,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From a1d8255f4b434e41133ce098b8fd7a3dbed6359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:10 +0000
Subject: [PATCH 11/42] fix: a dictionary or group kept a key without a value
 when adding the value failed

---
 Source/Collections/Dictionary.h | 47 ++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..e383ca1 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -84,6 +84,21 @@ namespace vl
 			KeyContainer						keys;
 			ValueContainer						values;
 
+			template<typename TKeyItem, typename TValueItem>
+			void InsertInternal(TKeyItem&& key, TValueItem&& value)
+			{
+				vint index = keys.Add(std::forward<TKeyItem&&>(key));
+				try
+				{
+					values.Insert(index, std::forward<TValueItem&&>(value));
+				}
+				catch (...)
+				{
+					keys.RemoveAt(index);
+					throw;
+				}
+			}
+
 			template<typename TKeyItem, typename TValueItem>
 			bool SetInternal(TKeyItem&& key, TValueItem&& value)
 			{
@@ -94,8 +109,7 @@ namespace vl
 				vint index = keys.IndexOf(KeyType<KT>::GetKeyValue(keyAccept));
 				if (index == -1)
 				{
-					index = keys.Add(std::forward<TKeyForward>(keyAccept));
-					values.Insert(index, std::forward<TValueItem&&>(value));
+					InsertInternal(std::forward<TKeyForward>(keyAccept), std::forward<TValueItem&&>(value));
 				}
 				else
 				{
@@ -112,8 +126,7 @@ namespace vl
 				TKeyAccept keyAccept = memory_management::RefOrConvert<KT>(std::forward<TKeyItem&&>(key));
 
 				CHECK_ERROR(!keys.Contains(KeyType<KT>::GetKeyValue(keyAccept)), L"Dictionary<KT, KK, ValueContainer, VT, VK>::Add(const KT&, const VT&)#Key already exists.");
-				vint index = keys.Add(std::forward<TKeyForward>(keyAccept));
-				values.Insert(index, std::forward<TValueItem&&>(value));
+				InsertInternal(std::forward<TKeyForward>(keyAccept), std::forward<TValueItem&&>(value));
 
 				return true;
 			}
@@ -379,18 +392,34 @@ namespace vl
 				using TKeyForward = memory_management::ForwardType<KT, TKeyItem&&>;
 				TKeyAccept keyAccept = memory_management::RefOrConvert<KT>(std::forward<TKeyItem&&>(key));
 
-				ValueContainer* target = nullptr;
 				vint index = keys.IndexOf(KeyType<KT>::GetKeyValue(keyAccept));
 				if (index == -1)
 				{
-					target = new ValueContainer;
-					values.Insert(keys.Add(std::forward<TKeyForward>(keyAccept)), target);
+					ValueContainer* target = new ValueContainer;
+					try
+					{
+						target->Add(std::forward<TValueItem&&>(value));
+						index = keys.Add(std::forward<TKeyForward>(keyAccept));
+						try
+						{
+							values.Insert(index, target);
+						}
+						catch (...)
+						{
+							keys.RemoveAt(index);
+							throw;
+						}
+					}
+					catch (...)
+					{
+						delete target;
+						throw;
+					}
 				}
 				else
 				{
-					target = values[index];
+					values[index]->Add(std::forward<TValueItem&&>(value));
 				}
-				target->Add(std::forward<TValueItem&&>(value));
 				return true;
 			}
 		public:
-- 
2.43.0


From d3129d2ffc1b79eb2d1bbb4fed180cbea30f658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 12/42] fix: restarting the enumeration of a dictionary or
 group failed, and a clone of it had no current element

---
 Source/Collections/Dictionary.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index e383ca1..e8cfb65 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -49,7 +49,9 @@ namespace vl
 				
 				IEnumerator<KVPair>* Clone()const override
 				{
-					return new Enumerator(container, index);
+					auto cloned = new Enumerator(container, index);
+					cloned->current = current;
+					return cloned;
 				}
 
 				const KVPair& Current()const override
@@ -72,7 +74,7 @@ namespace vl
 				void Reset() override
 				{
 					index=-1;
-					UpdateCurrent();
+					current.Reset();
 				}
 
 				bool Evaluated()const override
@@ -320,7 +322,9 @@ namespace vl
 				
 				IEnumerator<KVPair>* Clone()const override
 				{
-					return new Enumerator(container, keyIndex, valueIndex);
+					auto cloned = new Enumerator(container, keyIndex, valueIndex);
+					cloned->current = current;
+					return cloned;
 				}
 
 				const KVPair& Current()const override
@@ -373,7 +377,7 @@ namespace vl
 				{
 					keyIndex=-1;
 					valueIndex=-1;
-					UpdateCurrent();
+					current.Reset();
 				}
 
 				bool Evaluated()const override
-- 
2.43.0


From a909f353a9e65640c9428cda46a4b04bebf03b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 13/42] fix: removing a value that a group does not hold
 reported success

---
 Source/Collections/Dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index e8cfb65..954b972 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -611,7 +611,7 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					if(!target->Remove(value)) return false;
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
-- 
2.43.0


From 1ee771e8130691783010eb274d738228bf0fcfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:34 +0000
Subject: [PATCH 14/42] fix: attaching or detaching a handler while an event is
 triggered skipped, repeated or freed running handlers

---
 Source/Primitives/Event.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..0c59c03 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -96,9 +96,16 @@ namespace vl
 		template<typename... TArgs2>
 		void operator()(TArgs2&& ...args)const
 		{
+			// handlers could be attached or detached during the call, a copy keeps them alive and in place
+			collections::List<Ptr<EventHandlerImpl>> calling;
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				calling.Add(handlers[i]);
+			}
+			for(vint i = 0; i < calling.Count(); i++)
+			{
+				if (!calling[i]->attached) continue;
+				calling[i]->function(std::forward<TArgs2&&>(args)...);
 			}
 		}
 	};
-- 
2.43.0


From baba736163d7a43a26c105b008558147bb787450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:34 +0000
Subject: [PATCH 15/42] fix: the first handler of an event consumed arguments
 passed as rvalues, so later handlers saw empty values

---
 Source/Primitives/Event.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 0c59c03..014b9ec 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -105,7 +105,15 @@ namespace vl
 			for(vint i = 0; i < calling.Count(); i++)
 			{
 				if (!calling[i]->attached) continue;
-				calling[i]->function(std::forward<TArgs2&&>(args)...);
+				if constexpr (std::is_invocable_v<const Func<void(TArgs...)>&, TArgs2&...>)
+				{
+					// arguments are shared by all handlers, none of them could consume the values
+					calling[i]->function(args...);
+				}
+				else
+				{
+					calling[i]->function(std::forward<TArgs2&&>(args)...);
+				}
 			}
 		}
 	};
-- 
2.43.0


From 5cbbb4c99bd39bc903572e5e21f43dc8c13dd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:26 +0000
Subject: [PATCH 16/42] fix: Skip reported a position below -1 before its first
 element, so Skip(2).Take(0) was not empty

---
 Source/Collections/OperationSequence.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..ca8d8c1 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -105,7 +105,8 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				// nothing is skipped before the first element is requested
+				return skipped?enumerator->Index()-count:-1;
 			}
 
 			bool Next()override
-- 
2.43.0


From 9e37b6f59f2b34ab8745d92b91443eb790c03c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 17/42] fix: building or cloning a lazy query leaked the
 enumerators of its sources when memory ran out or a copy threw

---
 Source/Collections/Operation.h         | 22 ++++++-------
 Source/Collections/OperationConcat.h   | 14 +++-----
 Source/Collections/OperationPair.h     | 14 +++-----
 Source/Collections/OperationSelect.h   | 11 ++-----
 Source/Collections/OperationSequence.h | 44 +++++++-------------------
 Source/Collections/OperationSet.h      | 11 ++-----
 Source/Collections/OperationWhere.h    | 11 ++-----
 7 files changed, 40 insertions(+), 87 deletions(-)

diff --git a/Source/Collections/Operation.h b/Source/Collections/Operation.h
index 83e990b..e639dcc 100644
--- a/Source/Collections/Operation.h
+++ b/Source/Collections/Operation.h
@@ -328,7 +328,7 @@ LazyList
 			template<typename F>
 			auto Select(F&& f) const -> LazyList<decltype(f(std::declval<TInput>()))>
 			{
-				return new SelectEnumerator<T, decltype(f(std::declval<TInput>()))>(xs(), f);
+				return new SelectEnumerator<T, decltype(f(std::declval<TInput>()))>(Ptr(xs()), f);
 			}
 			
 			/// <summary>Create a new lazy list with all elements filtered.</summary>
@@ -346,7 +346,7 @@ LazyList
 			template<typename F>
 			LazyList<T> Where(F&& f)const
 			{
-				return new WhereEnumerator<T>(xs(), f);
+				return new WhereEnumerator<T>(Ptr(xs()), f);
 			}
 
 			/// <summary>Create a new lazy list with all elements casted to a new type.</summary>
@@ -361,7 +361,7 @@ LazyList
 			LazyList<Ptr<U>> Cast()const
 			{
 				Func<Ptr<U>(T)> f = [](T t)->Ptr<U> {return t.template Cast<U>(); };
-				return new SelectEnumerator<T, Ptr<U>>(xs(), f);
+				return new SelectEnumerator<T, Ptr<U>>(Ptr(xs()), f);
 			}
 			
 			/// <summary>Create a new lazy list with only elements that successfully casted to a new type.</summary>
@@ -685,7 +685,7 @@ LazyList
 			/// ]]></example>
 			LazyList<T> Concat(const IEnumerable<T>& remains)const
 			{
-				return new ConcatEnumerator<T>(xs(), remains.CreateEnumerator());
+				return new ConcatEnumerator<T>(Ptr(xs()), Ptr(remains.CreateEnumerator()));
 			}
 
 			/// <summary>Create a new lazy list with a prefix of the lazy list.</summary>
@@ -701,7 +701,7 @@ LazyList
 			/// ]]></example>
 			LazyList<T> Take(vint count)const
 			{
-				return new TakeEnumerator<T>(xs(), count);
+				return new TakeEnumerator<T>(Ptr(xs()), count);
 			}
 			
 			/// <summary>Create a new lazy list with a postfix of the lazy list.</summary>
@@ -717,7 +717,7 @@ LazyList
 			/// ]]></example>
 			LazyList<T> Skip(vint count)const
 			{
-				return new SkipEnumerator<T>(xs(), count);
+				return new SkipEnumerator<T>(Ptr(xs()), count);
 			}
 
 			/// <summary>Create a new lazy list with several copies of the lazy list in order.</summary>
@@ -733,7 +733,7 @@ LazyList
 			/// ]]></example>
 			LazyList<T> Repeat(vint count)const
 			{
-				return new RepeatEnumerator<T>(xs(), count);
+				return new RepeatEnumerator<T>(Ptr(xs()), count);
 			}
 
 			/// <summary>Create a new lazy list with duplicated elements removed in this lazy list.</summary>
@@ -748,7 +748,7 @@ LazyList
 			/// ]]></example>
 			LazyList<T> Distinct()const
 			{
-				return new DistinctEnumerator<T>(xs());
+				return new DistinctEnumerator<T>(Ptr(xs()));
 			}
 
 			/// <summary>Create a new lazy list with all elements in this lazy list in a reverse order.</summary>
@@ -787,7 +787,7 @@ LazyList
 			template<typename U>
 			LazyList<Pair<T, U>> Pairwise(const IEnumerable<U>& remains)const
 			{
-				return new PairwiseEnumerator<T, U>(xs(), remains.CreateEnumerator());
+				return new PairwiseEnumerator<T, U>(Ptr(xs()), Ptr(remains.CreateEnumerator()));
 			}
 
 			/// <summary>Create a new lazy list with elements from the lazy list, which also appear in the second container.</summary>
@@ -804,7 +804,7 @@ LazyList
 			/// ]]></example>
 			LazyList<T> Intersect(const IEnumerable<T>& remains)const
 			{
-				return LazyList<T>(new IntersectExceptEnumerator<T, true>(xs(), remains)).Distinct();
+				return LazyList<T>(new IntersectExceptEnumerator<T, true>(Ptr(xs()), remains)).Distinct();
 			}
 
 			/// <summary>Create a new lazy list with elements from the lazy list, which do not appear in the second container.</summary>
@@ -821,7 +821,7 @@ LazyList
 			/// ]]></example>
 			LazyList<T> Except(const IEnumerable<T>& remains)const
 			{
-				return LazyList<T>(new IntersectExceptEnumerator<T, false>(xs(), remains)).Distinct();
+				return LazyList<T>(new IntersectExceptEnumerator<T, false>(Ptr(xs()), remains)).Distinct();
 			}
 			
 			/// <summary>Create a new lazy list with elements in two containers. Duplicated elements will be removed.</summary>
diff --git a/Source/Collections/OperationConcat.h b/Source/Collections/OperationConcat.h
index c712aea..1da1a9b 100644
--- a/Source/Collections/OperationConcat.h
+++ b/Source/Collections/OperationConcat.h
@@ -21,12 +21,12 @@ Concat
 		class ConcatEnumerator : public virtual IEnumerator<T>
 		{
 		protected:
-			IEnumerator<T>*					enumerator1;
-			IEnumerator<T>*					enumerator2;
+			Ptr<IEnumerator<T>>				enumerator1;
+			Ptr<IEnumerator<T>>				enumerator2;
 			vint							index;
 			bool							turned;
 		public:
-			ConcatEnumerator(IEnumerator<T>* _enumerator1, IEnumerator<T>* _enumerator2, vint _index=-1, bool _turned=false)
+			ConcatEnumerator(Ptr<IEnumerator<T>> _enumerator1, Ptr<IEnumerator<T>> _enumerator2, vint _index=-1, bool _turned=false)
 				:enumerator1(_enumerator1)
 				,enumerator2(_enumerator2)
 				,index(_index)
@@ -34,15 +34,9 @@ Concat
 			{
 			}
 
-			~ConcatEnumerator()
-			{
-				delete enumerator1;
-				delete enumerator2;
-			}
-
 			IEnumerator<T>* Clone()const override
 			{
-				return new ConcatEnumerator(enumerator1->Clone(), enumerator2->Clone(), index, turned);
+				return new ConcatEnumerator(Ptr(enumerator1->Clone()), Ptr(enumerator2->Clone()), index, turned);
 			}
 
 			const T& Current()const override
diff --git a/Source/Collections/OperationPair.h b/Source/Collections/OperationPair.h
index db55a84..6634415 100644
--- a/Source/Collections/OperationPair.h
+++ b/Source/Collections/OperationPair.h
@@ -21,26 +21,20 @@ Pairwise
 		class PairwiseEnumerator : public virtual IEnumerator<Pair<S, T>>
 		{
 		protected:
-			IEnumerator<S>*					enumerator1;
-			IEnumerator<T>*					enumerator2;
+			Ptr<IEnumerator<S>>				enumerator1;
+			Ptr<IEnumerator<T>>				enumerator2;
 			Nullable<Pair<S, T>>			current;
 		public:
-			PairwiseEnumerator(IEnumerator<S>* _enumerator1, IEnumerator<T>* _enumerator2, Nullable<Pair<S, T>> _current = {})
+			PairwiseEnumerator(Ptr<IEnumerator<S>> _enumerator1, Ptr<IEnumerator<T>> _enumerator2, Nullable<Pair<S, T>> _current = {})
 				:enumerator1(_enumerator1)
 				,enumerator2(_enumerator2)
 				,current(_current)
 			{
 			}
 
-			~PairwiseEnumerator()
-			{
-				delete enumerator1;
-				delete enumerator2;
-			}
-
 			IEnumerator<Pair<S, T>>* Clone()const override
 			{
-				return new PairwiseEnumerator(enumerator1->Clone(), enumerator2->Clone(), current);
+				return new PairwiseEnumerator(Ptr(enumerator1->Clone()), Ptr(enumerator2->Clone()), current);
 			}
 
 			const Pair<S, T>& Current()const override
diff --git a/Source/Collections/OperationSelect.h b/Source/Collections/OperationSelect.h
index 6e4a944..ab0e876 100644
--- a/Source/Collections/OperationSelect.h
+++ b/Source/Collections/OperationSelect.h
@@ -22,25 +22,20 @@ Select
 		class SelectEnumerator : public virtual IEnumerator<K>
 		{
 		protected:
-			IEnumerator<T>*		enumerator;
+			Ptr<IEnumerator<T>>	enumerator;
 			Func<K(T)>			selector;
 			Nullable<K>			current;
 		public:
-			SelectEnumerator(IEnumerator<T>* _enumerator, const Func<K(T)>& _selector, Nullable<K> _current = {})
+			SelectEnumerator(Ptr<IEnumerator<T>> _enumerator, const Func<K(T)>& _selector, Nullable<K> _current = {})
 				:enumerator(_enumerator)
 				,selector(_selector)
 				,current(_current)
 			{
 			}
 
-			~SelectEnumerator()
-			{
-				delete enumerator;
-			}
-
 			IEnumerator<K>* Clone()const override
 			{
-				return new SelectEnumerator(enumerator->Clone(), selector, current);
+				return new SelectEnumerator(Ptr(enumerator->Clone()), selector, current);
 			}
 
 			const K& Current()const override
diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index ca8d8c1..fa168df 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -23,23 +23,18 @@ Take
 		class TakeEnumerator : public virtual IEnumerator<T>
 		{
 		protected:
-			IEnumerator<T>*			enumerator;
+			Ptr<IEnumerator<T>>		enumerator;
 			vint					count;
 		public:
-			TakeEnumerator(IEnumerator<T>* _enumerator, vint _count)
+			TakeEnumerator(Ptr<IEnumerator<T>> _enumerator, vint _count)
 				:enumerator(_enumerator)
 				,count(_count)
 			{
 			}
 
-			~TakeEnumerator()
-			{
-				delete enumerator;
-			}
-
 			IEnumerator<T>* Clone()const override
 			{
-				return new TakeEnumerator(enumerator->Clone(), count);
+				return new TakeEnumerator(Ptr(enumerator->Clone()), count);
 			}
 
 			const T& Current()const override
@@ -77,25 +72,20 @@ Skip
 		class SkipEnumerator : public virtual IEnumerator<T>
 		{
 		protected:
-			IEnumerator<T>*			enumerator;
+			Ptr<IEnumerator<T>>		enumerator;
 			vint					count;
 			bool					skipped;
 		public:
-			SkipEnumerator(IEnumerator<T>* _enumerator, vint _count, bool _skipped=false)
+			SkipEnumerator(Ptr<IEnumerator<T>> _enumerator, vint _count, bool _skipped=false)
 				:enumerator(_enumerator)
 				,count(_count)
 				,skipped(_skipped)
 			{
 			}
 
-			~SkipEnumerator()
-			{
-				delete enumerator;
-			}
-
 			IEnumerator<T>* Clone()const override
 			{
-				return new SkipEnumerator(enumerator->Clone(), count, skipped);
+				return new SkipEnumerator(Ptr(enumerator->Clone()), count, skipped);
 			}
 
 			const T& Current()const override
@@ -145,12 +135,12 @@ Repeat
 		class RepeatEnumerator : public virtual IEnumerator<T>
 		{
 		protected:
-			IEnumerator<T>*			enumerator;
+			Ptr<IEnumerator<T>>		enumerator;
 			vint					count;
 			vint					index;
 			vint					repeatedCount;
 		public:
-			RepeatEnumerator(IEnumerator<T>* _enumerator, vint _count, vint _index=-1, vint _repeatedCount=0)
+			RepeatEnumerator(Ptr<IEnumerator<T>> _enumerator, vint _count, vint _index=-1, vint _repeatedCount=0)
 				:enumerator(_enumerator)
 				,count(_count)
 				,index(_index)
@@ -158,14 +148,9 @@ Repeat
 			{
 			}
 
-			~RepeatEnumerator()
-			{
-				delete enumerator;
-			}
-
 			IEnumerator<T>* Clone()const override
 			{
-				return new RepeatEnumerator(enumerator->Clone(), count, index, repeatedCount);
+				return new RepeatEnumerator(Ptr(enumerator->Clone()), count, index, repeatedCount);
 			}
 
 			const T& Current()const override
@@ -214,12 +199,12 @@ Distinct
 		class DistinctEnumerator : public virtual IEnumerator<T>
 		{
 		protected:
-			IEnumerator<T>*		enumerator;
+			Ptr<IEnumerator<T>>	enumerator;
 			SortedList<T>		distinct;
 			Nullable<T>			lastValue;
 
 		public:
-			DistinctEnumerator(IEnumerator<T>* _enumerator)
+			DistinctEnumerator(Ptr<IEnumerator<T>> _enumerator)
 				:enumerator(_enumerator)
 			{
 			}
@@ -227,15 +212,10 @@ Distinct
 			DistinctEnumerator(const DistinctEnumerator& _enumerator)
 				:lastValue(_enumerator.lastValue)
 			{
-				enumerator = _enumerator.enumerator->Clone();
+				enumerator = Ptr(_enumerator.enumerator->Clone());
 				CopyFrom(distinct, _enumerator.distinct);
 			}
 
-			~DistinctEnumerator()
-			{
-				delete enumerator;
-			}
-
 			IEnumerator<T>* Clone()const override
 			{
 				return new DistinctEnumerator(*this);
diff --git a/Source/Collections/OperationSet.h b/Source/Collections/OperationSet.h
index 65f557c..43580ff 100644
--- a/Source/Collections/OperationSet.h
+++ b/Source/Collections/OperationSet.h
@@ -23,12 +23,12 @@ Intersect/Except
 		class IntersectExceptEnumerator : public virtual IEnumerator<T>
 		{
 		protected:
-			IEnumerator<T>*				enumerator;
+			Ptr<IEnumerator<T>>			enumerator;
 			SortedList<T>				reference;
 			vint						index;
 
 		public:
-			IntersectExceptEnumerator(IEnumerator<T>* _enumerator, const IEnumerable<T>& _reference)
+			IntersectExceptEnumerator(Ptr<IEnumerator<T>> _enumerator, const IEnumerable<T>& _reference)
 				:enumerator(_enumerator)
 				,index(-1)
 			{
@@ -37,16 +37,11 @@ Intersect/Except
 
 			IntersectExceptEnumerator(const IntersectExceptEnumerator& _enumerator)
 			{
-				enumerator=_enumerator.enumerator->Clone();
+				enumerator=Ptr(_enumerator.enumerator->Clone());
 				CopyFrom(reference, _enumerator.reference);
 				index=_enumerator.index;
 			}
 
-			~IntersectExceptEnumerator()
-			{
-				delete enumerator;
-			}
-
 			IEnumerator<T>* Clone()const override
 			{
 				return new IntersectExceptEnumerator(*this);
diff --git a/Source/Collections/OperationWhere.h b/Source/Collections/OperationWhere.h
index b4f5b3a..d36748d 100644
--- a/Source/Collections/OperationWhere.h
+++ b/Source/Collections/OperationWhere.h
@@ -20,26 +20,21 @@ Where
 		class WhereEnumerator : public virtual IEnumerator<T>
 		{
 		protected:
-			IEnumerator<T>*			enumerator;
+			Ptr<IEnumerator<T>>		enumerator;
 			Func<bool(T)>			selector;
 			vint					index;
 
 		public:
-			WhereEnumerator(IEnumerator<T>* _enumerator, const Func<bool(T)>& _selector, vint _index=-1)
+			WhereEnumerator(Ptr<IEnumerator<T>> _enumerator, const Func<bool(T)>& _selector, vint _index=-1)
 				:enumerator(_enumerator)
 				,selector(_selector)
 				,index(_index)
 			{
 			}
 
-			~WhereEnumerator()
-			{
-				delete enumerator;
-			}
-
 			IEnumerator<T>* Clone()const override
 			{
-				return new WhereEnumerator(enumerator->Clone(), selector, index);
+				return new WhereEnumerator(Ptr(enumerator->Clone()), selector, index);
 			}
 
 			const T& Current()const override
-- 
2.43.0


From 43d70600eecc623c86d175680c515000f08aee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:51 +0000
Subject: [PATCH 18/42] fix: a range-based for loop leaked its enumerator when
 the first element could not be computed

---
 Source/Collections/OperationForEach.h | 32 +++++++++------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/Source/Collections/OperationForEach.h b/Source/Collections/OperationForEach.h
index c3da1eb..d95d233 100644
--- a/Source/Collections/OperationForEach.h
+++ b/Source/Collections/OperationForEach.h
@@ -25,7 +25,7 @@ Range-Based For-Loop Iterator
 		struct RangeBasedForLoopIterator
 		{
 		private:
-			IEnumerator<T>*			iterator;
+			Ptr<IEnumerator<T>>		iterator;
 
 		public:
 			RangeBasedForLoopIterator(const IEnumerable<T>& enumerable)
@@ -34,16 +34,10 @@ Range-Based For-Loop Iterator
 				operator++();
 			}
 
-			~RangeBasedForLoopIterator()
-			{
-				if (iterator) delete iterator;
-			}
-
 			void operator++()
 			{
 				if (!iterator->Next())
 				{
-					delete iterator;
 					iterator = nullptr;
 				}
 			}
@@ -55,22 +49,22 @@ Range-Based For-Loop Iterator
 
 			bool operator==(const RangeBasedForLoopEnding&) const
 			{
-				return iterator == nullptr;
+				return !iterator;
 			}
 
 			bool operator!=(const RangeBasedForLoopEnding&) const
 			{
-				return iterator != nullptr;
+				return (bool)iterator;
 			}
 
 			friend bool operator==(const RangeBasedForLoopEnding&, const RangeBasedForLoopIterator<T>& iterator)
 			{
-				return iterator.iterator == nullptr;
+				return !iterator.iterator;
 			}
 
 			friend bool operator!=(const RangeBasedForLoopEnding&, const RangeBasedForLoopIterator<T>& iterator)
 			{
-				return iterator.iterator != nullptr;
+				return (bool)iterator.iterator;
 			}
 		};
 
@@ -94,7 +88,7 @@ Range-Based For-Loop Iterator with Index
 		struct RangeBasedForLoopIteratorWithIndex
 		{
 		private:
-			IEnumerator<T>*			iterator;
+			Ptr<IEnumerator<T>>		iterator;
 			vint					index;
 
 		public:
@@ -105,16 +99,10 @@ Range-Based For-Loop Iterator with Index
 				operator++();
 			}
 
-			~RangeBasedForLoopIteratorWithIndex()
-			{
-				if (iterator) delete iterator;
-			}
-
 			void operator++()
 			{
 				if (!iterator->Next())
 				{
-					delete iterator;
 					iterator = nullptr;
 				}
 				index++;
@@ -127,22 +115,22 @@ Range-Based For-Loop Iterator with Index
 
 			bool operator==(const RangeBasedForLoopEnding&) const
 			{
-				return iterator == nullptr;
+				return !iterator;
 			}
 
 			bool operator!=(const RangeBasedForLoopEnding&) const
 			{
-				return iterator != nullptr;
+				return (bool)iterator;
 			}
 
 			friend bool operator==(const RangeBasedForLoopEnding&, const RangeBasedForLoopIteratorWithIndex<T>& iterator)
 			{
-				return iterator.iterator == nullptr;
+				return !iterator.iterator;
 			}
 
 			friend bool operator!=(const RangeBasedForLoopEnding&, const RangeBasedForLoopIteratorWithIndex<T>& iterator)
 			{
-				return iterator.iterator != nullptr;
+				return (bool)iterator.iterator;
 			}
 		};
 
-- 
2.43.0


From e81d3683779e8d18e366b9dc667b5d3c4fe5842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:44 +0000
Subject: [PATCH 19/42] fix: assigning another type to a variant left a
 destroyed value when the copy threw, and read freed memory when assigned from
 what it owns

---
 Source/Primitives/Variant.h | 57 +++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 2cfe3ae..f4b44c3 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -277,6 +277,34 @@ namespace vl
 		vint							index = -1;
 		char							buffer[MaxSize];
 
+	protected:
+		void Replace(Variant<TElements...>&& variant)
+		{
+			// the new value is already constructed, so the old value is not lost when the constructor throws or reads it
+			ElementPack::Dtor(index, buffer);
+			index = variant.index;
+			ElementPack::MoveCtor(index, buffer, variant.buffer);
+		}
+
+		template<vint I, typename TArg>
+		void Replace(VariantIndex<I> i, TArg&& value)
+		{
+			using T = TypeTupleElement<I, TypeTuple<TElements...>>;
+			if constexpr (std::is_move_constructible_v<T>)
+			{
+				T element(std::forward<TArg&&>(value));
+				ElementPack::Dtor(index, buffer);
+				index = I;
+				ElementPack::MoveCtor(i, buffer, std::move(element));
+			}
+			else
+			{
+				ElementPack::Dtor(index, buffer);
+				index = I;
+				ElementPack::Ctor(i, buffer, std::forward<TArg&&>(value));
+			}
+		}
+
 	public:
 		Variant()
 			requires(std::is_default_constructible_v<TypeTupleElement<0, TypeTuple<TElements...>>>)
@@ -349,9 +377,16 @@ namespace vl
 				}
 				else
 				{
-					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::CopyCtor(index, buffer, variant.buffer);
+					if constexpr ((std::is_move_constructible_v<TElements> && ...))
+					{
+						Replace(Variant<TElements...>(variant));
+					}
+					else
+					{
+						ElementPack::Dtor(index, buffer);
+						index = variant.index;
+						ElementPack::CopyCtor(index, buffer, variant.buffer);
+					}
 				}
 			}
 			return *this;
@@ -367,9 +402,7 @@ namespace vl
 				}
 				else
 				{
-					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::MoveCtor(index, buffer, variant.buffer);
+					Replace(Variant<TElements...>(std::move(variant)));
 				}
 			}
 			return *this;
@@ -386,9 +419,7 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = i;
-				ElementPack::CopyCtor(VariantIndex<i>{}, buffer, element);
+				Replace(VariantIndex<i>{}, element);
 			}
 			return *this;
 		}
@@ -404,9 +435,7 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = i;
-				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(element));
+				Replace(VariantIndex<i>{}, std::move(element));
 			}
 			return *this;
 		}
@@ -420,9 +449,7 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = I;
-				ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				Replace(i, std::forward<T&&>(value));
 			}
 			return *this;
 		}
-- 
2.43.0


From 734d57a36e99374474e4d0fabfe07c7f9dbe7f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:11 +0000
Subject: [PATCH 20/42] fix: assigning to an optional of a non-assignable type
 lost the old value when the copy threw, and read a destroyed value when
 assigned from itself

---
 Source/Primitives/Nullable.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..366a7a4 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,8 +105,9 @@ namespace vl
 				}
 			}
 
+			T newObject(value);
 			Reset();
-			new (&object)T(value);
+			new (&object)T(std::move(newObject));
 			initialized = true;
 			return *this;
 		}
@@ -151,8 +152,9 @@ namespace vl
 					}
 				}
 
+				T newObject(nullable.object);
 				Reset();
-				new (&object)T(nullable.object);
+				new (&object)T(std::move(newObject));
 				initialized = true;
 			}
 			return *this;
-- 
2.43.0


From 254f84635e85c2251f178559ea4553608c1cd049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 21/42] fix: sorting duplicated one element and lost another
 when copying an element threw

---
 Source/Collections/Operation.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Source/Collections/Operation.h b/Source/Collections/Operation.h
index e639dcc..50e3181 100644
--- a/Source/Collections/Operation.h
+++ b/Source/Collections/Operation.h
@@ -114,9 +114,9 @@ Quick Sort
 						else
 						{
 							theirs++;
-							T temp = items[pivot];
-							items[pivot] = items[candidate];
-							items[candidate] = temp;
+							T temp = std::move(items[pivot]);
+							items[pivot] = std::move(items[candidate]);
+							items[candidate] = std::move(temp);
 							pivot = candidate;
 							flag = !flag;
 						}
@@ -138,9 +138,9 @@ Quick Sort
 						{
 							if (reading != writing)
 							{
-								T temp = items[reading];
-								items[reading] = items[writing];
-								items[writing] = temp;
+								T temp = std::move(items[reading]);
+								items[reading] = std::move(items[writing]);
+								items[writing] = std::move(temp);
 							}
 							writing--;
 						}
@@ -158,9 +158,9 @@ Quick Sort
 						{
 							if (reading != writing)
 							{
-								T temp = items[reading];
-								items[reading] = items[writing];
-								items[writing] = temp;
+								T temp = std::move(items[reading]);
+								items[reading] = std::move(items[writing]);
+								items[writing] = std::move(temp);
 							}
 							writing++;
 						}
-- 
2.43.0


From 21e00b4bd1cc27ddb8607af20b3c00998ac7f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:00 +0000
Subject: [PATCH 22/42] fix: UTC date-times were off by the daylight saving
 offset in zones that have it

---
 Source/Primitives/DateTime.Linux.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..fcc4553 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -98,6 +98,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -108,6 +109,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -117,9 +119,7 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
-			timer += localTimer - utcTimer;
+			timer = timegm(localtime(&timer));
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
-- 
2.43.0


From ec99b7d5c3cb6135b86024b1c9cf13f20aa25c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:29 +0000
Subject: [PATCH 23/42] fix: reading the date and time on two threads at once
 mixed up their results

---
 Source/Primitives/DateTime.Linux.cpp | 39 ++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index fcc4553..f8a9735 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -42,6 +42,24 @@ DateTime
 			return osInternal;
 		}
 
+		// localtime and gmtime share one result among all threads
+
+		static tm TimeToLocalTM(time_t timer)
+		{
+			tm timeinfo;
+			tzset();
+			localtime_r(&timer, &timeinfo);
+			return timeinfo;
+		}
+
+		static tm TimeToUtcTM(time_t timer)
+		{
+			tm timeinfo;
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return timeinfo;
+		}
+
 		static DateTime ConvertTMToDateTime(tm* timeinfo, vint milliseconds)
 		{
 			time_t timer = mktime(timeinfo);
@@ -81,25 +99,24 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = localtime(&timer);
-			return ConvertTMToDateTime(timeinfo, milliseconds);
+			tm timeinfo = TimeToLocalTM(timer);
+			return ConvertTMToDateTime(&timeinfo, milliseconds);
 		}
 
 		vuint64_t LocalTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = localtime(&tv.tv_sec);
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo = TimeToLocalTM(tv.tv_sec);
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t UtcTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = gmtime(&tv.tv_sec);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo = TimeToUtcTM(tv.tv_sec);
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t LocalToUtcTime(vuint64_t osInternal) override
@@ -108,9 +125,8 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, milliseconds);
+			tm timeinfo = TimeToUtcTM(timer);
+			return ConvertTMTToOSInternal(&timeinfo, milliseconds);
 		}
 
 		vuint64_t UtcToLocalTime(vuint64_t osInternal) override
@@ -119,7 +135,8 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			timer = timegm(localtime(&timer));
+			tm timeinfo = TimeToLocalTM(timer);
+			timer = timegm(&timeinfo);
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
-- 
2.43.0


From ac660ca3467159e844e315f6da1c44c76ee9ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:19 +0000
Subject: [PATCH 24/42] fix: a global storage counted as initialised after its
 initialisation threw

---
 Source/GlobalStorage.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/GlobalStorage.cpp b/Source/GlobalStorage.cpp
index 24a3acc..f022c0e 100644
--- a/Source/GlobalStorage.cpp
+++ b/Source/GlobalStorage.cpp
@@ -56,7 +56,15 @@ GlobalStorage
 		if (!initialized)
 		{
 			initialized = true;
-			InitializeResource();
+			try
+			{
+				InitializeResource();
+			}
+			catch (...)
+			{
+				initialized = false;
+				throw;
+			}
 		}
 	}
 
-- 
2.43.0


From 0a844c2db722ca6f383ae9823b14bc964ea1ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:26 +0000
Subject: [PATCH 25/42] fix: every console write was followed by a NUL
 character

---
 Source/Console.Linux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index d7e51dc..18ea539 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -23,7 +23,7 @@ Console
 		void Console::Write(const wchar_t* string, vint length)
 		{
 			std::wstring s(string, string + length);
-			std::wcout << s << std::ends;
+			std::wcout << s;
 		}
 
 		WString Console::Read()
-- 
2.43.0


From dd62dd680cf5165ff57159fcbc77ae0c831e11fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:26 +0000
Subject: [PATCH 26/42] fix: console output was lost forever after one failure
 of the output stream

---
 Source/Console.Linux.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index 18ea539..5761719 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -23,6 +23,8 @@ Console
 		void Console::Write(const wchar_t* string, vint length)
 		{
 			std::wstring s(string, string + length);
+			// a failure is not kept, the stream could work again
+			std::wcout.clear();
 			std::wcout << s;
 		}
 
-- 
2.43.0


From b546ffc2ceb40bf5b55c7140697ec1b2d756a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:26 +0000
Subject: [PATCH 27/42] fix: a line read from the console was cut off at an
 embedded NUL character

---
 Source/Console.Linux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index 5761719..7dc1789 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -32,7 +32,7 @@ Console
 		{
 			std::wstring s;
 			std::getline(std::wcin, s, L'\n');
-			return s.c_str();
+			return WString::CopyFrom(s.c_str(), (vint)s.length());
 		}
 
 		void Console::SetColor(bool red, bool green, bool blue, bool light)
-- 
2.43.0


From c038c8d46aa87343093f0e0b6b68a78ac8506beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:26 +0000
Subject: [PATCH 28/42] fix: damaged UTF-8 (stray or missing continuation
 bytes, overlong forms, surrogates) was decoded to arbitrary characters

---
 Source/Strings/Conversion.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..98ab3f2 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -120,18 +120,19 @@ UtfConversion<char8_t>
 			const vuint8_t* cs = reinterpret_cast<const vuint8_t*>(source);
 			vuint32_t& d = reinterpret_cast<vuint32_t&>(dest);
 			if (sourceLength <= 0) return -1;
+			vint size = 0;
 
 			if (cs[0] < 0b10000000U)
 			{
 				d = cs[0];
-				return 1;
+				size = 1;
 			}
 			else if (cs[0] < 0b11100000U)
 			{
 				if (sourceLength < 2) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00011111U) << 6) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U));
-				return 2;
+				size = 2;
 			}
 			else if (cs[0] < 0b11110000U)
 			{
@@ -139,7 +140,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				size = 3;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -148,7 +149,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				size = 4;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -158,7 +159,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				size = 5;
 			}
 			else
 			{
@@ -169,10 +170,17 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				size = 6;
 			}
-			if (IsInvalid(dest)) return -1;
-			return 1;
+
+			// stray or missing continuation bytes, unnecessarily long forms and surrogates do not encode back to the same bytes
+			char8_t expected[BufferLength];
+			if (From32(dest, expected) != size) return -1;
+			for (vint i = 0; i < size; i++)
+			{
+				if (source[i] != expected[i]) return -1;
+			}
+			return size;
 		}
 
 /***********************************************************************
-- 
2.43.0


From 06537508fc6571703a5d7d80c4bd28a1777989e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:01 +0000
Subject: [PATCH 29/42] fix: generating placeholder text on two threads at once
 raced on the position in the dictionary

---
 Source/Strings/LoremIpsum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 8e8d555..684317f 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -58,7 +58,7 @@ namespace vl
 			L"maecenas", L"aliquet", L"mollis", L"lectus", L"vivamus", L"consectetuer", L"risus", L"et",
 			L"tortor"
 		};
-		static vint index = 0;
+		static thread_local vint index = 0;
 		const vint WordCount = sizeof(words) / sizeof(*words);
 
 		if (bestLength < 0) bestLength = 0;
-- 
2.43.0


From b27cd07d8db23559d4103acb973b8abe4f829167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 30/42] fix: generating placeholder text leaked its buffer when
 memory ran out

---
 Source/Strings/LoremIpsum.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 684317f..b076ac0 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -99,9 +99,7 @@ namespace vl
 			index = (index + 1) % WordCount;
 		}
 
-		WString result = buffer;
-		delete[] buffer;
-		return result;
+		return WString::TakeOver(buffer, used);
 	}
 
 	WString LoremIpsumTitle(vint bestLength)
-- 
2.43.0


From d93f3f9a0fb1a6ae78cc3303f567b419c4d7b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:44 +0000
Subject: [PATCH 31/42] fix: a placeholder paragraph could end with a separator
 or contain an empty sentence

---
 Source/Strings/LoremIpsum.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index b076ac0..17be5d5 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -129,7 +129,7 @@ namespace vl
 			if (offset < 20)
 			{
 				comma = 0;
-				length = offset - 1;
+				length = offset > 1 ? offset - 1 : 1;
 			}
 			else if (length > offset)
 			{
@@ -138,8 +138,9 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0)
+			if (comma == 0 || result.Length() + 2 >= bestLength - 1)
 			{
+				// no more text will follow after this
 				result += L".";
 				break;
 			}
-- 
2.43.0


From ee6055ecf172e0192afadfac07c7c811d9316edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:17 +0000
Subject: [PATCH 32/42] fix: an empty text was reported as successfully parsed
 real number

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index 5fa2a82..dfe0091 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -194,7 +194,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -202,7 +202,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
-- 
2.43.0


From fd31959b9da8fe380427eb7fa417143c647c2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:01 +0000
Subject: [PATCH 33/42] fix: a push-only allocator leaked a block when memory
 ran out while recording it

---
 Source/Collections/List.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index cb360d3..4108245 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -943,7 +943,16 @@ Special Containers
 			{
 				if (allocatedSize == blocks.Count()*blockSize)
 				{
-					blocks.Add(new T[blockSize]);
+					T* block = new T[blockSize];
+					try
+					{
+						blocks.Add(block);
+					}
+					catch (...)
+					{
+						delete[] block;
+						throw;
+					}
 				}
 				vint index = allocatedSize++;
 				return Get(index);
-- 
2.43.0


From 49f01360f98e0fd99605c97d55dd44a5c5959600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 34/42] fix: skipping a negative number of elements reported
 wrong positions

---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index fa168df..928f74c 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -96,7 +96,7 @@ Skip
 			vint Index()const override
 			{
 				// nothing is skipped before the first element is requested
-				return skipped?enumerator->Index()-count:-1;
+				return !skipped?-1:count>0?enumerator->Index()-count:enumerator->Index();
 			}
 
 			bool Next()override
-- 
2.43.0


From ae9591c36cd173f72685fd2eedddcd7558bb8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 35/42] fix: Sub and Remove of a string accepted a count so
 large that the range check overflowed

---
 Source/Strings/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index c5436f1..266adb4 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -476,7 +476,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -494,7 +494,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From 1761c02e93cee51f86f750fddf777184edd41d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 36/42] fix: RemoveRange of a list accepted a count so large
 that the range check overflowed

---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 4108245..8dde813 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -589,7 +589,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(_count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
-- 
2.43.0


From 60ead9d3ac3d216d5c801776a9ef914d941ed026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 37/42] fix: a container too large to exist got a small buffer
 because its size in bytes overflowed

---
 Source/Collections/List.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 8dde813..ddb37ca 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -132,6 +132,7 @@ Memory Management
 			T* AllocateBuffer(vint size)
 			{
 				if (size <= 0) return nullptr;
+				if ((size_t)size > (size_t)-1 / sizeof(T)) throw std::bad_alloc();
 				T* buffer = (T*)malloc(sizeof(T) * size);
 				if (!buffer) throw std::bad_alloc();
 				return buffer;
-- 
2.43.0


From b4cd03fd43e377ea2f7d69aead8f327352a1a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:33 +0000
Subject: [PATCH 38/42] fix: changing the case of a text lost everything after
 a zero character in it

---
 Source/Strings/String.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index dfe0091..5b6230f 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -349,31 +349,38 @@ namespace vl
 		return atow(ftoa(number));
 	}
 
+	// these functions stop at a zero character, there could be some in the string
+	template<typename T, typename TCallback>
+	ObjectString<T> ChangeCase(const ObjectString<T>& string, TCallback callback)
+	{
+		ObjectString<T> result = ObjectString<T>::CopyFrom(string.Buffer(), string.Length());
+		T* buffer = (T*)result.Buffer();
+		vint length = result.Length();
+		for (vint i = 0; i < length; i++)
+		{
+			callback(buffer + i, (size_t)(length - i + 1));
+			while (i < length && buffer[i]) i++;
+		}
+		return result;
+	}
+
 	AString alower(const AString& string)
 	{
-		AString result = string.Buffer();
-		_strlwr_s((char*)result.Buffer(), result.Length() + 1);
-		return result;
+		return ChangeCase(string, [](char* buffer, size_t size) { _strlwr_s(buffer, size); });
 	}
 
 	WString wlower(const WString& string)
 	{
-		WString result = string.Buffer();
-		_wcslwr_s((wchar_t*)result.Buffer(), result.Length() + 1);
-		return result;
+		return ChangeCase(string, [](wchar_t* buffer, size_t size) { _wcslwr_s(buffer, size); });
 	}
 
 	AString aupper(const AString& string)
 	{
-		AString result = string.Buffer();
-		_strupr_s((char*)result.Buffer(), result.Length() + 1);
-		return result;
+		return ChangeCase(string, [](char* buffer, size_t size) { _strupr_s(buffer, size); });
 	}
 
 	WString wupper(const WString& string)
 	{
-		WString result = string.Buffer();
-		_wcsupr_s((wchar_t*)result.Buffer(), result.Length() + 1);
-		return result;
+		return ChangeCase(string, [](wchar_t* buffer, size_t size) { _wcsupr_s(buffer, size); });
 	}
 }
-- 
2.43.0


From 15531745360f1b9e37ed7b3d886f2c642a44645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:08 +0000
Subject: [PATCH 39/42] fix: copying a sorted list took the elements away from
 the original

---
 Source/Collections/List.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index ddb37ca..c08c171 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -844,9 +844,21 @@ SortedList
 			SortedList(SortedList<T>&& container) : ListBase<T>(std::move(container)) {}
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
-			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
+			SortedList(const SortedList<T>& xs)
 			{
+				T* newBuffer = memory_management::AllocateBuffer<T>(xs.count);
+				try
+				{
+					memory_management::CallCopyCtors(newBuffer, xs.buffer, xs.count);
+				}
+				catch (...)
+				{
+					memory_management::DeallocateBuffer(newBuffer);
+					throw;
+				}
+				this->buffer = newBuffer;
+				this->count = xs.count;
+				this->capacity = xs.count;
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
-- 
2.43.0


From 2c0f30040b36036bc488a1ff6de0d93cf938302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:59 +0000
Subject: [PATCH 40/42] fix: moving a list or array from inside one of its own
 elements

---
 Source/Collections/List.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index c08c171..ec81613 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -417,15 +417,18 @@ Array
 			Array<T>& operator=(const Array<T>&) = delete;
 			Array<T>& operator=(Array<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element in this array, it should be taken before elements are released
+				T* previousBuffer = this->buffer;
+				vint previousCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				_move.buffer = nullptr;
 				_move.count = 0;
+				if (previousBuffer)
+				{
+					memory_management::CallDtors(previousBuffer, previousCount);
+					memory_management::DeallocateBuffer(previousBuffer);
+				}
 				return *this;
 			}
 
@@ -555,17 +558,20 @@ ListBase
 			ListBase<T>& operator=(const ListBase<T>&) = delete;
 			ListBase<T>& operator=(ListBase<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element in this list, it should be taken before elements are released
+				T* previousBuffer = this->buffer;
+				vint previousCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				this->capacity = _move.capacity;
 				_move.buffer = nullptr;
 				_move.count = 0;
 				_move.capacity = 0;
+				if (previousBuffer)
+				{
+					memory_management::CallDtors(previousBuffer, previousCount);
+					memory_management::DeallocateBuffer(previousBuffer);
+				}
 				return *this;
 			}
 
-- 
2.43.0


From e00aeae632b51a8ea123052b8cad8cec239d5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:04 +0000
Subject: [PATCH 41/42] fix: moving a dictionary or group from inside one of
 its own values

---
 Source/Collections/Dictionary.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 954b972..d04efd3 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -147,8 +147,11 @@ namespace vl
 			Dictionary<KT, VT>& operator=(const Dictionary<KT, VT>&) = delete;
 			Dictionary<KT, VT>& operator=(Dictionary<KT, VT> && _move)
 			{
-				keys = std::move(_move.keys);
-				values = std::move(_move.values);
+				// _move could be owned by a key or a value in this dictionary, it should be taken before they are released
+				KeyContainer movedKeys(std::move(_move.keys));
+				ValueContainer movedValues(std::move(_move.values));
+				keys = std::move(movedKeys);
+				values = std::move(movedValues);
 				return* this;
 			}
 
@@ -445,9 +448,12 @@ namespace vl
 			Group<KT, VT>& operator=(const Group<KT, VT>&) = delete;
 			Group<KT, VT>& operator=(Group<KT, VT> && _move)
 			{
+				// _move could be owned by a key or a value in this group, it should be taken before they are released
+				KeyContainer movedKeys(std::move(_move.keys));
+				decltype(values) movedValues(std::move(_move.values));
 				Clear();
-				keys = std::move(_move.keys);
-				values = std::move(_move.values);
+				keys = std::move(movedKeys);
+				values = std::move(movedValues);
 				return*this;
 			}
 
-- 
2.43.0


From fe1fa6186e0d2303fa0689123da1a29ed726fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 42/42] fix: moving an optional from inside its own value read
 freed memory

---
 Source/Primitives/Nullable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 366a7a4..31409a4 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -126,8 +126,9 @@ namespace vl
 				}
 			}
 
+			T newObject(std::move(value));
 			Reset();
-			new (&object)T(std::move(value));
+			new (&object)T(std::move(newObject));
 			initialized = true;
 			return *this;
 		}
@@ -171,19 +172,19 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
+				T newObject(std::move(nullable.object));
+				nullable.Reset();
 				if constexpr (std::is_move_assignable_v<T>)
 				{
 					if (initialized)
 					{
-						object = std::move(nullable.object);
-						nullable.Reset();
+						object = std::move(newObject);
 						return *this;
 					}
 				}
 
 				Reset();
-				new (&object)T(std::move(nullable.object));
-				nullable.Reset();
+				new (&object)T(std::move(newObject));
 				initialized = true;
 			}
 			return *this;
-- 
2.43.0

