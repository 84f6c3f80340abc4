From b6f3c1d39673fb1d577be7b28a4af8ef253053dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 01/82] fix: free the IP address structures rather than a
 pointer inside them

---
 ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index aebc4ab..e771163 100644
--- a/ip.c
+++ b/ip.c
@@ -202,7 +202,7 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		free(prev);
 	}
 }
 
-- 
2.43.0


From b35ffef729de6f36670291769c96f555d8805ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 02/82] fix: copy the bytes of the IP address rather than as
 many as its type's number

---
 IpAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IpAddress.cpp b/IpAddress.cpp
index a3933d0..36d3368 100644
--- a/IpAddress.cpp
+++ b/IpAddress.cpp
@@ -74,8 +74,8 @@ void IpAddress::init(const unsigned char * const ipAddressData,
 
 void IpAddress::getCopyOfIpAddress(unsigned char copy[], const uint32_t size) const {
     const uint32_t dataSize = ((type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4)
-        ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4
-        : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6);
+        ? FIFTYONE_DEGREES_IPV4_LENGTH
+        : FIFTYONE_DEGREES_IPV6_LENGTH);
 	const uint32_t copySize = (size < dataSize) ? size : dataSize;
 	memcpy(copy, ipAddress, copySize);
 }
-- 
2.43.0


From 46fc3e63dec2451e35b416fba3c9e4d53a9e39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 03/82] fix: keep parsed IP addresses inside their allocation
 and fully initialised

---
 ip.c | 53 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/ip.c b/ip.c
index e771163..b8c9335 100644
--- a/ip.c
+++ b/ip.c
@@ -66,6 +66,31 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/*
+ * Get the number of bytes available to store an address of the type provided.
+ * @type of the IP address
+ * @return number of bytes allocated for the address
+ */
+static int getIpLength(EvidenceIpType type) {
+	return type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+		FIFTYONE_DEGREES_IPV4_LENGTH :
+		FIFTYONE_DEGREES_IPV6_LENGTH;
+}
+
+/*
+ * Adds the byte to the end of the address. If the string contains more bytes
+ * than the type of address can hold, for example because a port number follows
+ * the address, then the additional ones are ignored.
+ * @address to add the byte to
+ * @value of the byte
+ */
+static void addIpByte(EvidenceIpAddress *address, byte value) {
+	if (address->current - address->address < getIpLength(address->type)) {
+		*address->current = value;
+		address->current++;
+	}
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -75,8 +100,7 @@ static void parseIpV6Segment(
 	if (start > end) {
 		// This is an abbreviation, so fill it in.
 		for (i = 0; i < 16 - address->bytesPresent; i++) {
-			*address->current = (byte)0;
-			address->current++;
+			addIpByte(address, (byte)0);
 		}
 	}
 	else {
@@ -90,10 +114,8 @@ static void parseIpV6Segment(
 			if (i < 2) second[1 - i] = val;
 			else first[3 - i] = val;
 		}
-		*address->current = getIpByte((int)strtol(first, NULL, 16));
-		address->current++;
-		*address->current = getIpByte((int)strtol(second, NULL, 16));
-		address->current++;
+		addIpByte(address, getIpByte((int)strtol(first, NULL, 16)));
+		addIpByte(address, getIpByte((int)strtol(second, NULL, 16)));
 	}
 }
 
@@ -104,8 +126,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
-		address->current++;
+		addIpByte(address, getIpByte(atoi(start)));
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
 		parseIpV6Segment(address, start, end);
@@ -181,17 +202,9 @@ static EvidenceIpType iterateIpAddress(
 EvidenceIpAddress* mallocIpAddress(
 	void*(*malloc)(size_t),
 	EvidenceIpType type) {
-	switch (type) {
-	case FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4:
-		return (EvidenceIpAddress*)malloc(
-			sizeof(EvidenceIpAddress) +
-			(4 * sizeof(byte)));
-	case FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6:
-	default:
-		return (EvidenceIpAddress*)malloc(
-			sizeof(EvidenceIpAddress) +
-			(16 * sizeof(byte)));
-	}
+	return (EvidenceIpAddress*)malloc(
+		sizeof(EvidenceIpAddress) +
+		(getIpLength(type) * sizeof(byte)));
 }
 
 void fiftyoneDegreesIpFreeAddresses(
@@ -225,6 +238,8 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 		// IpAddress structure. The previous Malloc included the necessary
 		// space to make this available.
 		address->address = (byte*)(address + 1);
+		// Ensure bytes which are not present in the string have a value.
+		memset(address->address, 0, getIpLength(type));
 		// Set the next byte to be added during the parse operation.
 		address->current = (byte*)(address + 1);
 		address->bytesPresent = (byte)count;
-- 
2.43.0


From 9411fb6f5d386c97c44984cfa340d0922e41f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 04/82] fix: retry the replacement of a resource when another
 thread replaced it first

---
 resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 833140c..04c35b1 100644
--- a/resource.c
+++ b/resource.c
@@ -344,7 +344,7 @@ void fiftyoneDegreesResourceReplace(
 	} while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle);
 #else
 	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
-- 
2.43.0


From 7977dcbd6f6a22da08f21576730e9348bc27552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 05/82] fix: free a replaced resource exactly once even when
 its handle's memory is used again

---
 resource.c | 139 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 80 insertions(+), 59 deletions(-)

diff --git a/resource.c b/resource.c
index 04c35b1..7de2a60 100644
--- a/resource.c
+++ b/resource.c
@@ -115,6 +115,51 @@ static void setHandle(
 	((Counter*)counter)->handle = handle;
 }
 
+/**
+ * Returns the handle which is currently active in the manager. The pointer can
+ * be changed by other threads at any time, so it must be read every time it's
+ * needed rather than an earlier value being used again by the compiler.
+ * @param manager to get the active handle from
+ * @return the handle which is active at the time of the call
+ */
+static ResourceHandle* getActive(ResourceManager *manager) {
+	return (ResourceHandle*)*(VOLATILE ResourceHandle * VOLATILE *)
+		&manager->active;
+}
+
+/**
+ * Sets the self pointer of the handle to null to indicate that the handle is
+ * no longer active in the manager, and is to be freed when its last user has
+ * finished with it. The caller must be one of the users of the handle.
+ * @param handle which has been replaced in the manager
+ */
+static void setReplaced(ResourceHandle *handle) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	COUNTER replaced;
+	COUNTER compare;
+	do {
+		compare = handle->counter;
+		assert(getInUse(&compare) > 0);
+		replaced = compare;
+		setHandle(&replaced, NULL);
+#ifdef _MSC_VER
+// Disable warning against the difference in the use of 'volatile' qualifier.
+// Casting won't resolve the issue which is described above with the definitions 
+// of COUNTER and HANDLE macros.
+#pragma warning (disable: 4090)
+#endif
+	} while (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
+		handle->counter,
+		replaced,
+		compare) == false);
+#ifdef _MSC_VER
+#pragma warning (default: 4090)
+#endif
+#else
+	setHandle(&handle->counter, NULL);
+#endif
+}
+
 /**
  * Returns the handle to the resource that is ready to be set for the manager,
  * or NULL if the handle was not successfully created.
@@ -138,10 +183,6 @@ static void setupResource(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
 
-	// Set the handle and the number of users of the resource to zero.
-	handle->counter = emptyCounter();
-	setHandle(&handle->counter, handle);
-	
 	// Set a link between the new active resource and the manager. Used to
 	// check if the resource can be freed when the last thread has finished
 	// using it.
@@ -154,6 +195,12 @@ static void setupResource(
 	// is disposed of.
 	handle->freeResource = freeResource;
 
+	// Set the handle and the number of users of the resource to zero. This is
+	// done last as the memory might be that of a handle which has been freed
+	// and another thread is still checking the counter of.
+	handle->counter = emptyCounter();
+	setHandle(&handle->counter, handle);
+
 	// Ensure the resource's handle is set before assigning the handle
 	// as the active handle.
 	*resourceHandle = handle;
@@ -197,12 +244,12 @@ void fiftyoneDegreesResourceManagerFree(
 
 void fiftyoneDegreesResourceHandleDecUse(
 	fiftyoneDegreesResourceHandle *handle) {
-	// When modifying this method, it is important to note the reason for using
-	// two separate compareand swaps. The first compare and swap ensures that
-	// we are certain the handle is ready to be released i.e. the inUse counter
-	// is zero, and the handle is no longer active in the manager. The second
-	// compare and swap ensures that we are certain the handle can be freed by
-	// THIS thread. See below for an example of when this can happen.
+	// The self pointer of a handle is set to null when the handle is replaced
+	// as the active one, after which its users can only decrease. Therefore
+	// only the thread which removes the last use of a replaced handle sees the
+	// combination of no uses and no self pointer in the value it exchanged,
+	// and only that thread can free the handle. Other threads must not access
+	// the handle after the exchange as it may have been freed.
 	COUNTER decremented;
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	COUNTER compare;
@@ -232,41 +279,9 @@ void fiftyoneDegreesResourceHandleDecUse(
 	decremented = handle->counter;
 #endif
 	assert(getInUse(&decremented) >= 0);
-	if (getInUse(&decremented) == 0 &&  // Am I the last user of the handle?
-		handle->manager->active != getHandle(&decremented)) { // Is the handle still active?
-#ifndef FIFTYONE_DEGREES_NO_THREADING
-		// Atomically set the handle's self pointer to null to ensure only
-		// one thread can get into the freeHandle method.
-		// Consider the scenario where between the decrement this if statement:
-		// 1. another thread increments and decrements the counter, then
-		// 2. the active handle is replaced.
-		// In this case, both threads will make it into here, so access to
-		// the freeHandle method must be limted to one by atomically nulling
-		// the self pointer. We will still have access to the pointer for
-		// freeing through the decremented copy.
-		COUNTER empty = emptyCounter();
-		assert((uintptr_t)&getHandle(&decremented)->counter % ALIGN_SIZE == 0);
-		assert((uintptr_t)&empty % ALIGN_SIZE == 0);
-		assert((uintptr_t)&decremented % ALIGN_SIZE == 0);
-#ifdef _MSC_VER
-// Disable warning against the difference in the use of 'volatile' qualifier.
-// Casting won't resolve the issue which is described above with the definitions 
-// of COUNTER and HANDLE macros.
-#pragma warning (disable: 4090)
-#endif
-		if (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
-			getHandle(&decremented)->counter,
-			empty,
-			decremented)) {
-#ifdef _MSC_VER
-#pragma warning (default: 4090)
-#endif
-			assert(handle != handle->manager->active);
-			freeHandle(getHandle(&decremented));
-		}
-#else
-		freeHandle(getHandle(&decremented));
-#endif
+	if (getInUse(&decremented) == 0 && // Am I the last user of the handle?
+		getHandle(&decremented) == NULL) { // Has the handle been replaced?
+		freeHandle(handle);
 	}
 }
 
@@ -276,11 +291,15 @@ fiftyoneDegreesResourceHandle* fiftyoneDegreesResourceHandleIncUse(
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	COUNTER compare;
 	do {
-		compare = manager->active->counter;
+		do {
+			// A handle without a self pointer has been replaced and must not
+			// be used. The active handle will already be a different one.
+			compare = getActive(manager)->counter;
+		} while (getHandle(&compare) == NULL);
 		assert(getInUse(&compare) >= 0);
 		incremented = compare;
 		add(&incremented, 1);
-		assert((uintptr_t)&manager->active->counter % ALIGN_SIZE == 0);
+		assert((uintptr_t)&getActive(manager)->counter % ALIGN_SIZE == 0);
 		assert((uintptr_t)&incremented % ALIGN_SIZE == 0);
 		assert((uintptr_t)&compare % ALIGN_SIZE == 0);
 #ifdef _MSC_VER
@@ -290,7 +309,7 @@ fiftyoneDegreesResourceHandle* fiftyoneDegreesResourceHandleIncUse(
 #pragma warning (disable: 4090)
 #endif
 	} while (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
-		manager->active->counter,
+		getActive(manager)->counter,
 		incremented,
 		compare) == false);
 #ifdef _MSC_VER
@@ -324,31 +343,33 @@ void fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
-	HANDLE* oldHandle = NULL;
-	
+	// Use the existing resource so that its handle can't be freed by another
+	// thread which is also replacing it.
+	HANDLE* oldHandle = ResourceHandleIncUse(manager);
+
 	// Add the new resource to the manager replacing the existing one.
 	setupResource(
 		manager,
 		newResource,
 		newResourceHandle,
-		manager->active->freeResource);
+		oldHandle->freeResource);
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	// Switch the active handle for the manager to the newly created one.
-	do {
-		if (oldHandle != NULL) {
-			ResourceHandleDecUse(oldHandle);
-		}
-		oldHandle = ResourceHandleIncUse(manager);
-	} while (INTERLOCK_EXCHANGE_PTR(
+	while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) != oldHandle);
+		oldHandle) != oldHandle) {
+		ResourceHandleDecUse(oldHandle);
+		oldHandle = ResourceHandleIncUse(manager);
+	}
 #else
-	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
 #endif
+	// Mark the handle as replaced before it is released.
+	setReplaced((ResourceHandle*)oldHandle);
+
 	// Release the existing resource can be freed. If nothing else is
 	// holding onto a reference to it then free it will be freed.
 	ResourceHandleDecUse(oldHandle);
-- 
2.43.0


From 71eef362d156899ec3757e84068b1a42b9921208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 06/82] fix: make a cache entry available again when its data
 fails to load

---
 cache.c | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/cache.c b/cache.c
index 279e989..4b8e319 100644
--- a/cache.c
+++ b/cache.c
@@ -206,6 +206,27 @@ static void cacheAddToHead(CacheNode *node) {
 	assert(node->shard->last->listNext == NULL);
 }
 
+/**
+ * Adds a node which does not contain valid data to the end of the linked list
+ * so that it will be the next one used for a new entry.
+ * @param node to add
+ */
+static void cacheAddToTail(CacheNode *node) {
+	CacheShard *shard = node->shard;
+	assert(node->listNext == NULL);
+	assert(node->listPrevious == NULL);
+	node->listPrevious = shard->last;
+	if (shard->last != NULL) {
+		shard->last->listNext = node;
+	}
+
+	shard->last = node;
+
+	if (shard->first == NULL) {
+		shard->first = shard->last;
+	}
+}
+
 /**
  * Returns the next free node from the cache which can be used to add a
  * new entry to. Once the cache is full then the node returned is the one
@@ -239,15 +260,18 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 		assert(node->activeCount == 0);
 		cacheRemoveFromList(node);
 
-		// Remove the last result from the binary tree.
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countBefore = TreeCount(&shard->root);
-		#endif
-		TreeDelete(&node->tree);
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countAfter = TreeCount(&shard->root);
-		assert(countBefore - 1 == countAfter);
-		#endif
+		// Remove the last result from the binary tree. It won't be there if
+		// the data for the entry failed to load.
+		if (node->tree.parent != &shard->root.empty) {
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countBefore = TreeCount(&shard->root);
+			#endif
+			TreeDelete(&node->tree);
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countAfter = TreeCount(&shard->root);
+			assert(countBefore - 1 == countAfter);
+			#endif
+		}
 	}
 
 	// Set the pointers of the node to null indicating that the
@@ -263,7 +287,7 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
  * @param shard dictated by the key
  * @param key to get or load
  * @return pointer to the node with data for the key, or NULL if there are no 
- * free nodes
+ * free nodes or the data could not be loaded
  */
 static CacheNode* cacheLoad(
 	CacheShard *shard, 
@@ -286,6 +310,12 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+			// The node can't be returned, so make it available again.
+			node->activeCount = 0;
+			cacheAddToTail(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From e1cb862cdca8178f9f0bcde7b13324b241d50570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 07/82] fix: find the cache shard for every hash code including
 the most negative

---
 cache.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 4b8e319..01a6247 100644
--- a/cache.c
+++ b/cache.c
@@ -281,6 +281,20 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 	return node;
 }
 
+/**
+ * Gets the shard that the entry with the hash is in. The absolute value is
+ * found without using a signed type as that of the most negative integer does
+ * not fit in one.
+ * @param cache to get the shard from
+ * @param keyHash hash code of the key
+ * @return pointer to the shard
+ */
+static CacheShard* cacheGetShard(Cache *cache, int64_t keyHash) {
+	int32_t value = (int32_t)keyHash;
+	uint32_t positive = value < 0 ? 0U - (uint32_t)value : (uint32_t)value;
+	return &cache->shards[positive % cache->concurrency];
+}
+
 /**
  * Loads the data for the key into the least frequently used node in the shard
  * if one is available.
@@ -415,7 +429,7 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = cacheGetShard(cache, keyHash);
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From 341fc1b6dfefbbbdbfd7916783f9f096e08fbe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 08/82] fix: count cache hits and misses of different shards
 without losing any

---
 cache.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cache.c b/cache.c
index 01a6247..f23dac4 100644
--- a/cache.c
+++ b/cache.c
@@ -281,6 +281,19 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 	return node;
 }
 
+/**
+ * Adds one to the metric which is shared by all the shards, so is not
+ * protected by the lock of the one being used.
+ * @param metric to add one to
+ */
+static void cacheIncrement(unsigned long *metric) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	INTERLOCK_INC((volatile long*)metric);
+#else
+	(*metric)++;
+#endif
+}
+
 /**
  * Gets the shard that the entry with the hash is in. The absolute value is
  * found without using a signed type as that of the most negative integer does
@@ -442,13 +455,13 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 		// The node was found in the cache, so increment the active count and
 		// remove from the shard's linked list if required.
 		cacheIncremenetCheckAndRemove(node);
-		cache->hits++;
+		cacheIncrement(&cache->hits);
 	}
 	else {
 
 		// The key does not exist so load it.
 		node = cacheLoad(shard, key, exception);
-		cache->misses++;
+		cacheIncrement(&cache->misses);
 	}
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From 2796f15df298e29541f70a05f80987593d921366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:30 +0000
Subject: [PATCH 09/82] fix: support the largest concurrency in the pool

---
 pool.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pool.c b/pool.c
index d23cd84..788cf41 100644
--- a/pool.c
+++ b/pool.c
@@ -31,13 +31,14 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 	fiftyoneDegreesPoolResourceCreate resourceCreate,
 	fiftyoneDegreesPoolResourceFree resourceFree,
 	fiftyoneDegreesException *exception) {
-	uint16_t i = 1;
+	uint32_t i = 1;
 	PoolItem *item;
 
 	// Add one to the concurrency value so that a NULL marker can be 
 	// written as the last item in the linked list that if returned
-	// indicates that the concurrency has been exceeded.
-	uint16_t listItems = concurrency + 1;
+	// indicates that the concurrency has been exceeded. The number of items is
+	// one more than the largest concurrency can hold.
+	uint32_t listItems = (uint32_t)concurrency + 1;
 
 	// Set the stack and head of the linked list.
 	pool->count = 0;
@@ -62,7 +63,7 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 			item->resource = resourceCreate(pool, state, exception);
 			pool->count++;
 			item->next = pool->head.values.index;
-			pool->head.values.index = i;
+			pool->head.values.index = (uint16_t)i;
 			i++;
 		}
 	}
@@ -133,7 +134,7 @@ void fiftyoneDegreesPoolReset(fiftyoneDegreesPool *pool) {
 
 void fiftyoneDegreesPoolFree(fiftyoneDegreesPool *pool) {
 	void *resource;
-	uint16_t i;
+	uint32_t i;
 	if (pool->stack != NULL) {
 		if (pool->resourceFree != NULL) {
 			for (i = 0; i <= pool->count; i++) {
-- 
2.43.0


From 4cfad3c91158fb1e4fbff4f71043d53da70c5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:30 +0000
Subject: [PATCH 10/82] fix: report a file pool whose file's length can't be
 found

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index b518a4b..9401b00 100644
--- a/file.c
+++ b/file.c
@@ -975,7 +975,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			freeFileHandle,
 			exception) != NULL &&
 		EXCEPTION_OKAY) {
-		if (setLength(filePool, exception) == 0) {
+		if (setLength(filePool, exception) <= 0) {
 			status = FILE_FAILURE;
 		}
 	}
-- 
2.43.0


From 3e8b76fd03224c9cdd9382ac51073b10cf1d4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 11/82] fix: return no item from a partly loaded collection
 when the rest of it fails

---
 collection.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 5014005..5a8b9a5 100644
--- a/collection.c
+++ b/collection.c
@@ -238,7 +238,11 @@ static void* getPartialVariable(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, offset, item, exception);
+		return collection->next->get(
+			collection->next,
+			offset,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_OFFSET_OUT_OF_RANGE);
@@ -261,7 +265,11 @@ static void* getPartialFixed(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, index, item, exception);
+		return collection->next->get(
+			collection->next,
+			index,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
-- 
2.43.0


From db230257a5baee8041115778c39be0ea554d0fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 12/82] fix: forget the memory freed after a failed read of a
 collection item

---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index 5a8b9a5..e282abc 100644
--- a/collection.c
+++ b/collection.c
@@ -1022,6 +1022,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1086,6 +1087,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From 19e3d5676c19f8ccf1eacf272e9cc05739652cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 13/82] fix: refuse collection items smaller than their header
 or past the collection

---
 collection.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index e282abc..f89f36a 100644
--- a/collection.c
+++ b/collection.c
@@ -1065,10 +1065,17 @@ static void* readFileVariable(
 			// Calculate the number of bytes needed to store the item.
 			bytesNeeded = getFinalSize(initial);
 
+			// Check the item includes its header and ends before the end of
+			// the collection. If not then the data is corrupt.
+			if (bytesNeeded < initialSize ||
+				bytesNeeded > fileCollection->collection->size - offset) {
+				EXCEPTION_SET(CORRUPT_DATA);
+			}
+
 			// Ensure sufficient memory is allocated for the item being
 			// read and that the header is copied to the data buffer
 			// provided by the caller.
-			if (DataMalloc(data, bytesNeeded) != NULL &&
+			else if (DataMalloc(data, bytesNeeded) != NULL &&
 				memcpy(data->ptr, initial, initialSize) == data->ptr) {
 
 				// Read the rest of the item into the item's data 
-- 
2.43.0


From f09cb7bb3d1a886b71210413d6259a50a20e5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 14/82] fix: free the source of a cached collection whose cache
 can not be created

---
 collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collection.c b/collection.c
index f89f36a..ec7149a 100644
--- a/collection.c
+++ b/collection.c
@@ -678,6 +678,7 @@ static Collection* createFromFileCached(
 		cache->source);
 
 	if (cache->cache == NULL) {
+		cache->source->freeCollection(cache->source);
 		freeCacheCollection(collection);
 		return NULL;
 	}
-- 
2.43.0


From bbe4725f964171bc1e46954aad704c47881a52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 15/82] fix: create no collection when there is no memory for
 it

---
 collection.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/collection.c b/collection.c
index ec7149a..1a90f20 100644
--- a/collection.c
+++ b/collection.c
@@ -544,6 +544,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -576,9 +579,16 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -659,6 +669,9 @@ static Collection* createFromFileCached(
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -779,6 +792,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
-- 
2.43.0


From 245aecfa82eb49888537647d55c8da85fa17e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 16/82] fix: create no collection when its position in the file
 is not known

---
 collection.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index 1a90f20..7b11c29 100644
--- a/collection.c
+++ b/collection.c
@@ -525,6 +525,9 @@ static CollectionFile* readFile(CollectionFile *fileCollection, FILE *file) {
 
 	// Record the offset in the source file to the collection.
 	fileCollection->offset = ftell(file);
+	if (fileCollection->offset < 0) {
+		return NULL;
+	}
 
 	// Move the file handle past the collection.
 	if (fseek(file, fileCollection->collection->size, SEEK_CUR) != 0) {
@@ -900,7 +903,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	if (result == NULL || (
 		result->count == config->loaded &&
-		(long)result->size < (long)(ftell(file) - header.startPosition))) {
+		result->size < header.length)) {
 
 		// Create the next collection if one is needed.
 		*next = createFromFileSecond(file, reader, config, header, read);
-- 
2.43.0


From 80d3d8d26852dfea2f236617779af8bf37cc9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 17/82] fix: report collection headers that can not be read or
 are too large

---
 collection.c | 75 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/collection.c b/collection.c
index 7b11c29..0384440 100644
--- a/collection.c
+++ b/collection.c
@@ -754,30 +754,50 @@ static Collection* createFromFileSecond(
 
 #endif
 
-fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
-	fiftyoneDegreesMemoryReader *reader,
+/**
+ * Sets the count and the length of the header from the integer which is at the
+ * start of the collection.
+ * @return true if set, or false if the collection would be longer than any
+ * collection can be in which case the header is unchanged.
+ */
+static bool setHeaderSize(
+	CollectionHeader *header,
+	uint32_t sizeOrCount,
 	uint32_t elementSize,
 	bool isCount) {
-	CollectionHeader header;
 	if (isCount) {
-		// The next integer is the count of items in the data structure.
-		header.count = *(uint32_t*)reader->current;
-		header.length = header.count * elementSize;
+		// The integer is the count of items in the data structure.
+		if (elementSize > 0 && sizeOrCount > UINT32_MAX / elementSize) {
+			return false;
+		}
+		header->count = sizeOrCount;
+		header->length = header->count * elementSize;
 	}
 	else {
-		// The next integer is the size of the data structure.
-		header.length = *(const uint32_t*)reader->current;
-		header.count = elementSize > 0 ? header.length / elementSize : 0;
+		// The integer is the size of the data structure.
+		header->length = sizeOrCount;
+		header->count = elementSize > 0 ? header->length / elementSize : 0;
 	}
+	return true;
+}
+
+fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
+	fiftyoneDegreesMemoryReader *reader,
+	uint32_t elementSize,
+	bool isCount) {
+	CollectionHeader header = { 0, 0, 0 };
+	uint32_t sizeOrCount;
+	const byte *current = reader->current;
 
 	// Advance the memory reader and record the start of the collection.
 	if (MemoryAdvance(reader, sizeof(uint32_t))) {
-		header.startPosition = (uint32_t)(reader->current - reader->startByte);
-	}
-	else {
-		header.startPosition = 0;
+		memcpy(&sizeOrCount, current, sizeof(uint32_t));
+		if (setHeaderSize(&header, sizeOrCount, elementSize, isCount)) {
+			header.startPosition =
+				(uint32_t)(reader->current - reader->startByte);
+		}
 	}
-	
+
 	return header;
 }
 
@@ -841,25 +861,15 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	FILE *file,
 	uint32_t elementSize,
 	bool isCount) {
-	fiftyoneDegreesCollectionHeader header;
+	fiftyoneDegreesCollectionHeader header = { 0, 0, 0 };
 	uint32_t sizeOrCount;
+	long position;
 
 	// Get the size or count of the data structure in bytes.
-	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1) {
-		if (isCount) {
-			// The integer is the count of items in the data structure.
-			header.count = sizeOrCount;
-			header.length = header.count * elementSize;
-		}
-		else {
-			// The integer is the size of the data structure.
-			header.length = sizeOrCount;
-			header.count = elementSize > 0 ? header.length / elementSize : 0;
-		}
-		header.startPosition = (uint32_t)ftell(file);
-	}
-	else {
-		header.startPosition = 0;
+	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1 &&
+		(position = ftell(file)) > 0 &&
+		setHeaderSize(&header, sizeOrCount, elementSize, isCount)) {
+		header.startPosition = (uint32_t)position;
 	}
 
 	return header;
@@ -876,6 +886,11 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	fiftyoneDegreesCollectionFileRead read) {
 	Collection *result = NULL;
 
+	// Check that the header could be read.
+	if (header.startPosition == 0) {
+		return NULL;
+	}
+
 #ifndef FIFTYONE_DEGREES_MEMORY_ONLY
 
 	Collection **next = &result;
-- 
2.43.0


From d601504b554c2f8f7803e90c5df2fddbe9fd5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 18/82] fix: report failed searches of a collection as not
 found and release the item

---
 collection.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 0384440..327f927 100644
--- a/collection.c
+++ b/collection.c
@@ -1247,14 +1247,15 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// Get the item from the collection checking for NULL or an error.
 		if (collection->get(collection, middle, item, exception) == NULL ||
 			EXCEPTION_OKAY == false) {
-			return 0;
+			return -1;
 		}
 		
 		// Perform the binary search using the comparer provided with the item
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
-			return 0;
+			COLLECTION_RELEASE(collection, item);
+			return -1;
 		}
 
 		if (comparisonResult == 0) {
-- 
2.43.0


From f71615a62dd8f9ea00a964a01aed63961d34ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 19/82] fix: set a status when a cached collection has no item
 to return

---
 collection.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/collection.c b/collection.c
index 327f927..7dfeff2 100644
--- a/collection.c
+++ b/collection.c
@@ -345,6 +345,11 @@ static void* getFromCache(
 	else {
 		item->data.used = 0;
 		item->handle = NULL;
+		if (EXCEPTION_OKAY) {
+
+			// There is no entry in the cache which is not already in use.
+			EXCEPTION_SET(COLLECTION_FAILURE);
+		}
 	}
 
 	return ptr;
@@ -380,17 +385,21 @@ static void loaderCache(
 
 		// If the item from the source collection has bytes then copy them into
 		// the cache node item ensuring sufficient memory is allocated first.
-		if (item.data.used > 0 &&
-			DataMalloc(data, item.data.allocated) != NULL) {
+		if (item.data.used > 0) {
+			if (DataMalloc(data, item.data.allocated) != NULL) {
 
-			// Copy the data from the collection into the cache.
-			if (memcpy(
-				data->ptr,
-				item.data.ptr,
-				item.data.used) == data->ptr) {
+				// Copy the data from the collection into the cache.
+				if (memcpy(
+					data->ptr,
+					item.data.ptr,
+					item.data.used) == data->ptr) {
 
-				// Set the number of used bytes to match the loaded item.
-				data->used = item.data.used;
+					// Set the number of used bytes to match the loaded item.
+					data->used = item.data.used;
+				}
+			}
+			else {
+				EXCEPTION_SET(INSUFFICIENT_MEMORY);
 			}
 		}
 
-- 
2.43.0


From 240b37300acda799afc21e829ba64337a1f815b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 20/82] fix: add no more available properties than were counted

---
 properties.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index 4443158..0320dc3 100644
--- a/properties.c
+++ b/properties.c
@@ -109,7 +109,8 @@ static bool resultsContain(
 static void addRequiredProperty(
 	PropertiesAvailable *available,
 	uint32_t propertyIndex) {
-	if (resultsContain(available, propertyIndex) == false) {
+	if (available->count < available->capacity &&
+		resultsContain(available, propertyIndex) == false) {
 		available->items[available->count++].propertyIndex = propertyIndex;
 	}
 }
-- 
2.43.0


From 52c4e711764daaaaf0ba8b0e759b72d73dea6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 21/82] fix: order available property names as they are
 searched and when one is missing

---
 properties.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/properties.c b/properties.c
index 0320dc3..258ec13 100644
--- a/properties.c
+++ b/properties.c
@@ -354,13 +354,22 @@ static void setEvidenceProperties(
 	}
 }
 
+/**
+ * Compares two names, either of which is NULL if it could not be retrieved
+ * from the data source. Such names come before all others. The same compare is
+ * used to sort and to search, so that every available name can be found.
+ */
+static int comparePropertyNames(const char *as, const String *b) {
+	if (as == NULL || b == NULL) {
+		return (as != NULL) - (b != NULL);
+	}
+	return StringCompare(as, &b->value);
+}
+
 static int comparePropertyNamesAscending(const void *a, const void *b) {
-	PropertyAvailable *ai = (PropertyAvailable*)a;
-	PropertyAvailable *bi = (PropertyAvailable*)b;
-	const char *as = STRING(ai->name.data.ptr);
-	const char *bs = STRING(bi->name.data.ptr);
-	assert(as != NULL && bs != NULL);
-	return _stricmp(as, bs);
+	const String *as = (const String*)((PropertyAvailable*)a)->name.data.ptr;
+	const String *bs = (const String*)((PropertyAvailable*)b)->name.data.ptr;
+	return comparePropertyNames(as == NULL ? NULL : &as->value, bs);
 }
 
 static void sortRequiredProperties(
@@ -400,9 +409,9 @@ static void initRequiredProperties(
 }
 
 static int comparePropertyNamesAscendingSearch(const void *a, const void *b) {
-	char *as = (char*)a;
-	char *bs = &((String*)((PropertyAvailable*)b)->name.data.ptr)->value;
-	return StringCompare(as, bs);
+	return comparePropertyNames(
+		(const char*)a,
+		(const String*)((PropertyAvailable*)b)->name.data.ptr);
 }
 
 fiftyoneDegreesPropertiesAvailable* fiftyoneDegreesPropertiesCreate(
-- 
2.43.0


From d65730e374ebc4de672d53366fe3b77841250f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 22/82] fix: count the full header for names that start or end
 with a separator

---
 headers.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/headers.c b/headers.c
index 4b50964..13fa479 100644
--- a/headers.c
+++ b/headers.c
@@ -61,18 +61,19 @@ static int countHeaderSegments(const char* name) {
  * Count the number of segments for all the headers.
  */
 static int countAllSegments(void* state, HeadersGetMethod get) {
-	uint32_t count = 0, index = 0, segments;
+	uint32_t count = 0, index = 0;
+	const char* string;
 	Item name;
 	DataReset(&name.data);
 	while (get(state, index, &name) >= 0) {
 
 		// Count the number of segments.
-		segments = countHeaderSegments(STRING(name.data.ptr));
-		count += segments;
+		string = STRING(name.data.ptr);
+		count += countHeaderSegments(string);
 
-		// If there are more than one segment then this is a pseudo header and 
-		// the count should also include the full header.
-		if (segments > 1) {
+		// If there is a separator then the name is different to any of its 
+		// segments and the count should also include the full header.
+		if (strchr(string, PSEUDO_HEADER_SEP) != NULL) {
 			count++;
 		}
 		COLLECTION_RELEASE(name.collection, &name);
-- 
2.43.0


From 88853d8a5b0075cf6f0a7baaa1084b59548ae9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 23/82] fix: add no more headers than there is memory for and
 free those that fail

---
 headers.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/headers.c b/headers.c
index 13fa479..1f17669 100644
--- a/headers.c
+++ b/headers.c
@@ -200,7 +200,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
@@ -275,12 +279,15 @@ static bool addHeadersFromDataSet(
 			countHeaderSegments(name) > 0 &&
 			getHeaderIndex(headers, name, nameLength) < 0) {
 
-			// Set the next header from the data set name item.
-			if (setHeaderFromDataSet(
+			// Set the next header from the data set name item. There might be
+			// no space for it if fewer headers could be read when counting.
+			if (headers->count >= headers->capacity ||
+				setHeaderFromDataSet(
 				&headers->items[headers->count],
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
@@ -312,7 +319,8 @@ static bool addHeadersFromSegments(HeaderArray* headers) {
 			segment = &header->segments->items[s];
 			existing = getHeader(headers, segment->segment, segment->length);
 			if (existing == NULL) {
-				if (setHeaderFromSegment(
+				if (headers->count >= headers->capacity ||
+					setHeaderFromSegment(
 					&headers->items[headers->count],
 					segment) == false) {
 					return false;
-- 
2.43.0


From 2a7723661ab09f0915c15cd1cf8119276a6759b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 24/82] fix: keep the resource in use when there is no memory
 to replace it

---
 resource.c | 27 ++++++++++++++++++---------
 resource.h |  6 ++++--
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/resource.c b/resource.c
index 7de2a60..0422e52 100644
--- a/resource.c
+++ b/resource.c
@@ -161,7 +161,7 @@ static void setReplaced(ResourceHandle *handle) {
 }
 
 /**
- * Returns the handle to the resource that is ready to be set for the manager,
+ * Sets the handle to the resource that is ready to be set for the manager,
  * or NULL if the handle was not successfully created.
  * @param manager of the resource
  * @param resource to be assigned to the manager
@@ -182,6 +182,10 @@ static void setupResource(
 		MallocAligned(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
+	if (handle == NULL) {
+		*resourceHandle = NULL;
+		return;
+	}
 
 	// Set a link between the new active resource and the manager. Used to
 	// check if the resource can be freed when the last thread has finished
@@ -230,15 +234,15 @@ void fiftyoneDegreesResourceManagerFree(
 	// active handle won't change at this point.
 	// Thus, it is safe to perform assertion directly
 	// to the active handle here. 
-	assert(getInUse(&manager->active->counter) >= 0);
 	if (manager->active != NULL) {
+		assert(getInUse(&manager->active->counter) >= 0);
 
-		ResourceHandle* newHandlePointer;
-		fiftyoneDegreesResourceReplace(
-			manager,
-			NULL,
-			&newHandlePointer);
-		FreeAligned(newHandlePointer);
+		// Release the resource in the same way as when it's replaced, other
+		// than there being no new resource so no memory is needed.
+		ResourceHandle* handle = ResourceHandleIncUse(manager);
+		manager->active = NULL;
+		setReplaced(handle);
+		ResourceHandleDecUse(handle);
 	}
 }
 
@@ -339,7 +343,7 @@ int32_t fiftyoneDegreesResourceHandleGetUse(
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-void fiftyoneDegreesResourceReplace(
+bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
@@ -353,6 +357,10 @@ void fiftyoneDegreesResourceReplace(
 		newResource,
 		newResourceHandle,
 		oldHandle->freeResource);
+	if (*newResourceHandle == NULL) {
+		ResourceHandleDecUse((ResourceHandle*)oldHandle);
+		return false;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -373,6 +381,7 @@ void fiftyoneDegreesResourceReplace(
 	// Release the existing resource can be freed. If nothing else is
 	// holding onto a reference to it then free it will be freed.
 	ResourceHandleDecUse(oldHandle);
+	return true;
 }
 #ifdef _MSC_VER
 #pragma warning (default: 4090)
diff --git a/resource.h b/resource.h
index 3300772..32e065c 100644
--- a/resource.h
+++ b/resource.h
@@ -247,9 +247,11 @@ EXTERNAL int32_t fiftyoneDegreesResourceHandleGetUse(
  * @param newResource pointer to the resource which the manager should manage
  * access to
  * @param newResourceHandle points to the location the new handle should be
- * stored
+ * stored, which is set to NULL if there is no memory for it
+ * @return true if the resource was replaced, or false if there was no memory
+ * in which case the existing resource is still the active one
  */
-EXTERNAL void fiftyoneDegreesResourceReplace(
+EXTERNAL bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle);
-- 
2.43.0


From 07d49f5634f6105366d360d9a9519cf289cfcdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 25/82] fix: use the existing data set throughout a reload and
 free one that can't replace it

---
 dataset.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..3884005 100644
--- a/dataset.c
+++ b/dataset.c
@@ -35,13 +35,16 @@ static StatusCode allocate(
 
 static StatusCode replace(
 	ResourceManager *manager,
+	ResourceHandle *existing,
 	DataSetBase *replacement) {
 
-	// Switch the active data set for the new one.
-	ResourceReplace(manager, replacement, &replacement->handle);
-	if (replacement->handle == NULL) {
-		DataSetFree(replacement);
-		Free(replacement);
+	// Switch the active data set for the new one. Once replaced the new data
+	// set could be freed at any time by another reload.
+	if (ResourceReplace(
+		manager,
+		replacement,
+		&replacement->handle) == false) {
+		existing->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
@@ -270,13 +273,16 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. The existing data set is used until the reload has finished
+	// so that it isn't freed by another reload.
+	ResourceHandle *existing = ResourceHandleIncUse(manager);
+	properties.existing = ((DataSetBase*)existing->resource)->available;
+	config = ((DataSetBase*)existing->resource)->config;
 
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		ResourceHandleDecUse(existing);
 		return status;
 	}
 
@@ -295,10 +301,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 		exception);
 	if (status != SUCCESS) {
 		Free(replacement);
+		ResourceHandleDecUse(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, existing, replacement);
+	ResourceHandleDecUse(existing);
+	return status;
 }
 
 fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
@@ -312,13 +321,16 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. The existing data set is used until the reload has finished
+	// so that it isn't freed by another reload.
+	ResourceHandle *existing = ResourceHandleIncUse(manager);
+	properties.existing = ((DataSetBase*)existing->resource)->available;
+	config = ((DataSetBase*)existing->resource)->config;
 	
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		ResourceHandleDecUse(existing);
 		return status; 
 	}
 
@@ -330,8 +342,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 		fileName,
 		exception);
 	if (status != SUCCESS) {
+		ResourceHandleDecUse(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, existing, replacement);
+	ResourceHandleDecUse(existing);
+	return status;
 }
\ No newline at end of file
-- 
2.43.0


From a5fe9e4bbbff92fe66d276dbfd2287ea4c89bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 26/82] fix: compare files of unknown or no size and more bytes
 than the buffer holds

---
 file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 9401b00..0da8fe4 100644
--- a/file.c
+++ b/file.c
@@ -265,7 +265,7 @@ static bool compareFiles(
 
 	// Compare the sizes.
 	size = FileGetSize(fileName);
-	if (size > 0 && size != FileGetSize(otherFileName)) {
+	if (size < 0 || size != FileGetSize(otherFileName)) {
 		return false;
 	}
 	// Open both files.
@@ -281,7 +281,10 @@ static bool compareFiles(
 
 	while (ftell(file) < size &&
 		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
+		read = (long)sizeof(buffer);
+		if (bytesToCompare >= 0 && bytesToCompare - ftell(file) < read) {
+			read = bytesToCompare - ftell(file);
+		}
 		if (size - ftell(file) < read) {
 			read = size - ftell(file);
 		}
-- 
2.43.0


From 0b7edce6e1fff51a341f18961f271069f8b278cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 27/82] fix: free the memory a file can't be read into and
 report one of unknown length

---
 file.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 0da8fe4..3339d85 100644
--- a/file.c
+++ b/file.c
@@ -1062,6 +1062,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 	if (status == SUCCESS) {
 		// Get the size of the file and allocate sufficient memory.
 		reader->length = fileGetSize(sourceFile);
+		if (reader->length < 0) {
+			reader->startByte = NULL;
+			reader->current = NULL;
+			reader->length = 0;
+			fclose(sourceFile);
+			return FILE_FAILURE;
+		}
 		reader->current = reader->startByte = (byte*)Malloc(
 			sizeof(char) * reader->length);
 		if (reader->current != NULL) {
@@ -1070,7 +1077,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From 77ababa7c1b4afd7f0da927dfd6d332234e85821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 28/82] fix: look for temp files in all the directories
 provided

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 3339d85..15832de 100644
--- a/file.c
+++ b/file.c
@@ -678,7 +678,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
@@ -716,7 +716,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
-- 
2.43.0


From 95ea97b72ff6250ecf621e2a7b2fd8f84d8b2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 29/82] fix: create one temp file in the first directory which
 is writable

---
 file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file.c b/file.c
index 15832de..2d457d1 100644
--- a/file.c
+++ b/file.c
@@ -839,6 +839,9 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 			if (status == SUCCESS) {
 				// Create the temp file
 				status = FileCopy(masterFile, destination);
+				if (status == SUCCESS) {
+					return status;
+				}
 			}
 		}
 
-- 
2.43.0


From 2fe7139af4ed7f14e18f043b65e8f176d351aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 30/82] fix: report a temp file name that does not fit in its
 destination

---
 file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index 2d457d1..04239d0 100644
--- a/file.c
+++ b/file.c
@@ -758,7 +758,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -830,12 +830,12 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
 			status = fiftyoneDegreesFileAddTempFileName(
-				masterFileName, destination, nameStart, length - nameStart - 1);
+				masterFileName, destination, nameStart, length - nameStart);
 			if (status == SUCCESS) {
 				// Create the temp file
 				status = FileCopy(masterFile, destination);
-- 
2.43.0


From 09a33ad51e9420aebd5db3f38c5179413f1b9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 31/82] fix: find the extension in the name of the file rather
 than its path

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 04239d0..78b67bd 100644
--- a/file.c
+++ b/file.c
@@ -628,7 +628,7 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
 	if (dot != NULL) {
 		end = dot - pos;
-- 
2.43.0


From 8528bfe93622df7fc87b7533a2efe0349cb3273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 32/82] fix: look for temp files in the working directory and
 only if their paths fit

---
 file.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index 78b67bd..1c3ce3c 100644
--- a/file.c
+++ b/file.c
@@ -358,9 +358,13 @@ static bool iterateFiles(
 	fileMatch match) {
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 	size_t nameStart;
+	// Check there is space for the path, a slash and a name.
+	nameStart = strlen(path);
+	if (nameStart + 2 > sizeof(tempPath)) {
+		return false;
+	}
 	// Append a slash to the path if one is not there already.
 	strcpy(tempPath, path);
-	nameStart = strlen(path);
 	if (nameStart != 0 &&
 		tempPath[nameStart - 1] != '/' &&
 		tempPath[nameStart - 1] != '\\') {
@@ -418,11 +422,14 @@ static bool iterateFiles(
 #else
 	DIR *dir;
 	struct dirent *ent;
-	dir = opendir(path);
+	dir = opendir(nameStart == 0 ? "." : path);
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-			// Append the name to the path.
+			// Append the name to the path ignoring any which are too long.
+			if (nameStart + strlen(ent->d_name) >= sizeof(tempPath)) {
+				continue;
+			}
 			strcpy(tempPath + nameStart, ent->d_name);
 			// Call match and return if the file is a match.
 			if (compare(tempPath, state)) {
-- 
2.43.0


From 0a6e493900ecd567e16e238f3fe11d726253a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 33/82] fix: find whether a temp file is in use whatever path
 is used for it

---
 file.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/file.c b/file.c
index 1c3ce3c..45847ec 100644
--- a/file.c
+++ b/file.c
@@ -498,7 +498,10 @@ static bool isFileInUse(const char *pathName) {
 	struct dirent *ent1, *ent2;
 	char fdPath[FILE_MAX_PATH];
 	char linkFile[FILE_MAX_PATH];
-	char linkPath[FILE_MAX_PATH];
+	struct stat pathStat, linkStat;
+	if (stat(pathName, &pathStat) != 0) {
+		return true;
+	}
 	procDir = opendir("/proc");
 	if (procDir != NULL) {
 		// Iterate over all directories in /proc
@@ -511,33 +514,26 @@ static bool isFileInUse(const char *pathName) {
 					// Check that the file is not '.' or '..'
 					if (strcmp(ent2->d_name, ".") != 0 &&
 						strcmp(ent2->d_name, "..") != 0) {
-						// Get the path which the symlink is pointing to
+						// Get the file which the symlink is pointing to. The
+						// path might not be the same as the one provided if
+						// that is relative or contains links.
 						if (Snprintf(
 							linkFile,
 							FILE_MAX_PATH,
 							"%s/%s",
 							fdPath,
-							ent2->d_name) >= 0) {
-							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
-							if (written >= 0) {
-								linkPath[written] = '\0';
-								size_t linkPathLen = strlen(linkPath);
-								size_t pathNameLen = strlen(pathName);
-								if (pathNameLen <= linkPathLen &&
-									strncmp(linkPath + linkPathLen - pathNameLen,
-										pathName,
-										pathNameLen) == 0) {
-									closedir(fdDir);
-									closedir(procDir);
-									return true;
-								}
-							}
+							ent2->d_name) >= 0 &&
+							stat(linkFile, &linkStat) == 0 &&
+							linkStat.st_dev == pathStat.st_dev &&
+							linkStat.st_ino == pathStat.st_ino) {
+							closedir(fdDir);
+							closedir(procDir);
+							return true;
 						}
 					}
 				}
+				closedir(fdDir);
 			}
-			closedir(fdDir);
 		}
 		closedir(procDir);
 	}
-- 
2.43.0


From 34a71ae408b1773149310414ac401db0cdfdddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 34/82] fix: count more than 255 deleted temp files

---
 file.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index 45847ec..a5f82b9 100644
--- a/file.c
+++ b/file.c
@@ -551,7 +551,7 @@ static bool isFileInUse(const char *pathName) {
 #endif
 
 /**
- * Deletes the file is it is not in use. The first byte of state->destination
+ * Deletes the file is it is not in use. The memory at state->destination
  * is used as a counter to indicate how many files were successfully deleted.
  * @param fileName path to matching file
  * @param state pointer to the file iterator state with the destination pointer
@@ -569,7 +569,7 @@ static bool iteratorFileDelete(const char *fileName, void *state) {
 	if (isFileInUse(fileName) == false) {
 #endif
 		if (fiftyoneDegreesFileDelete(fileName) == SUCCESS) {
-			((byte*)fileState->destination)[0]++;
+			(*(int*)fileState->destination)++;
 		}
 #ifdef __linux__
 	}
@@ -654,10 +654,10 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 	int count,
 	long bytesToCompare) {
 	int i;
-	byte deleted = 0;
+	int deleted = 0;
 	fileIteratorState state;
 	state.masterFileName = masterFileName;
-	// The iteratorFileDelete method will use the first byte of
+	// The iteratorFileDelete method will use the memory at
 	// state.destination to keep track of the number of files deleted. This is
 	// a slight misuse of the structure, but we'll allow it as the structure
 	// is internal only.
@@ -687,7 +687,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 				iteratorFileDelete);
 		}
 	}
-	return (int)deleted;
+	return deleted;
 }
 
 bool fiftyoneDegreesFileGetExistingTempFile(
-- 
2.43.0


From 89d686b18c550b49f3b9327712b8ab329c6eac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 35/82] fix: report files which are not completely written or
 copied

---
 file.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/file.c b/file.c
index a5f82b9..cd26a01 100644
--- a/file.c
+++ b/file.c
@@ -149,18 +149,19 @@ static StatusCode fileOpen(
 static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
 	size_t lengthRead, lengthWritten = 0;
-	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
-		lengthRead = fread(buffer, 1, sizeof(buffer), source);
-		while (lengthRead > 0) {
-			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
-			if (lengthWritten != lengthRead) {
-				return FILE_COPY_ERROR;
-			}
-			lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	if (fseek(source, 0L, SEEK_SET) != 0) {
+		return FILE_COPY_ERROR;
+	}
+	lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	while (lengthRead > 0) {
+		lengthWritten = fwrite(buffer, 1, lengthRead, destination);
+		if (lengthWritten != lengthRead) {
+			return FILE_COPY_ERROR;
 		}
+		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 	}
-	return SUCCESS;
+	// The read stops at the end of the file and also when it fails.
+	return ferror(source) == 0 ? SUCCESS : FILE_COPY_ERROR;
 }
 
 /**
@@ -590,10 +591,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 	FILE *file;
 	StatusCode status = fileOpen(fileName, &file, "wb");
 	if (status == SUCCESS) {
-		if (fwrite(data, length, 1, file) != 1) {
+		if (fwrite(data, 1, length, file) != length) {
+			status = FILE_FAILURE;
+		}
+		// The data might only be written when the file is closed.
+		if (fclose(file) != 0) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
 	}
 	return status;
 }
@@ -1040,7 +1044,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		// The data might only be written when the file is closed.
+		if (fclose(destinationFile) != 0 && status == SUCCESS) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
-- 
2.43.0


From a8e59cd0be878cad66000331feb178d366e1ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 36/82] fix: return all of a file name which is not in a
 directory

---
 file.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/file.c b/file.c
index cd26a01..10e0f09 100644
--- a/file.c
+++ b/file.c
@@ -1119,9 +1119,5 @@ void fiftyoneDegreesFilePoolReset(fiftyoneDegreesFilePool *filePool) {
 }
 
 const char* fiftyoneDegreesFileGetFileName(const char *filePath) {
-	char *c = (char*)filePath + strlen(filePath);
-	while (*c != '\\' && *c != '/' && c != filePath) {
-		c--;
-	}
-	return c + 1;
+	return getNameFromPath(filePath);
 }
-- 
2.43.0


From 1fcf4250c74f65e21e8d575da59c4e0901a6bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 37/82] fix: skip directories whose paths are too long for temp
 files

---
 file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 10e0f09..3f08afe 100644
--- a/file.c
+++ b/file.c
@@ -901,8 +901,12 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	}
 	else if (paths != NULL) {
 		for (i = 0; i < count; i++) {
-			strcpy(tempPath, paths[i]);
 			nameStart = strlen(paths[i]);
+			if (nameStart + 1 >= sizeof(tempPath)) {
+				status = FILE_PATH_TOO_LONG;
+				continue;
+			}
+			strcpy(tempPath, paths[i]);
 			if (nameStart != 0 &&
 				tempPath[nameStart - 1] != '/' &&
 				tempPath[nameStart - 1] != '\\') {
-- 
2.43.0


From f1e17b5c9c3dd6d321a6684c48a13f624d8a1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 38/82] fix: find prefixed headers whose names are one
 character

---
 headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 1f17669..c23b2fe 100644
--- a/headers.c
+++ b/headers.c
@@ -386,7 +386,7 @@ int fiftyoneDegreesHeaderGetIndex(
 	// Check if header is from a Perl or PHP wrapper in the form of HTTP_*
 	// and if present skip these characters.
 	if (headers->expectUpperPrefixedHeaders == true &&
-		length > sizeof(HTTP_PREFIX_UPPER) &&
+		length > sizeof(HTTP_PREFIX_UPPER) - 1 &&
 		StringCompareLength(
 			httpHeaderName,
 			HTTP_PREFIX_UPPER,
-- 
2.43.0


From 40ae3cf14798816dd19dc73495398917c11c6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:53 +0000
Subject: [PATCH 39/82] fix: find a sub string only when all of it is there

---
 string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.c b/string.c
index 180eb69..aa38322 100644
--- a/string.c
+++ b/string.c
@@ -101,7 +101,8 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 					break;
 				}
 			}
-			if (d == 0) {
+			// Only a match if all of the characters of b were compared.
+			if (d == 0 && *b1 == '\0') {
 				return (char *)a;
 			}
 		}
-- 
2.43.0


From a11bd56a6298e6228b5fb3956e172921fc72d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:13 +0000
Subject: [PATCH 40/82] fix: return every line of a text file once whatever its
 length and line ends

---
 textfile.c | 108 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 57 insertions(+), 51 deletions(-)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..9158050 100644
--- a/textfile.c
+++ b/textfile.c
@@ -24,28 +24,24 @@
 
 #include "fiftyone.h"
 
-static char* returnNextLine(
-	char* buffer, 
-	char* end, 
-	char* current, 
-	void* state, 
-	void(*callback)(const char*, void*)) {
-
-	while (current < end && *current != '\r' && *current != '\n') {
-		current++;
-	}
+// True if the character ends a line.
+static bool isLineEnd(char character) {
+	return character == '\r' || character == '\n';
+}
 
-	// If there is an end of line character change it to a null and
-	// call the callback.
-	if (current < end) {
-		*current = '\0';
-		callback(buffer, state);
-		// Move to the next character
+// Returns the first character from current onwards which ends a line, or end
+// if there isn't one.
+static char* getLineEnd(char* current, const char* end) {
+	while (current < end && isLineEnd(*current) == false) {
 		current++;
 	}
+	return current;
+}
 
-	// Move to the next printable character.
-	while (current < end && (*current == '\r' || *current == '\n')) {
+// Returns the first character from current onwards which doesn't end a line,
+// or end if there isn't one.
+static char* getLineStart(char* current, const char* end) {
+	while (current < end && isLineEnd(*current)) {
 		current++;
 	}
 	return current;
@@ -58,46 +54,56 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 	int limit,
 	void *state,
 	void(*callback)(const char*, void *)) {
-	char* end = buffer + length;
-	char* current = buffer;
-	size_t bufferRead = 0;
+	// One past the last character the buffer can hold.
+	const char* const bufferEnd = buffer + length;
+	// One past the last character read into the buffer.
+	char* end = buffer;
+	// The first character of the next line in the buffer.
+	char* line = buffer;
+	char* lineEnd;
+	size_t available;
+	size_t bytesRead;
+	bool endOfFile = false;
 	int counter = 0;
 	FILE *handle;
 	if (FileOpen(fileName, &handle) == SUCCESS) {
-		while ((limit < 0 || counter < limit) &&
-			(bufferRead = fread(current, sizeof(char), end - current, handle))
-			== (size_t)(end - current)) {
+		while (limit < 0 || counter < limit) {
 
-			// Return the next line.
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			counter++;
+			// Find the next line. There are no characters to return for lines
+			// that are empty.
+			line = getLineStart(line, end);
+			lineEnd = getLineEnd(line, end);
 
-			// Shift the buffer to the left and load the next characters.
-			size_t shift = end - current;
-			memmove(buffer, current, shift);
-			current = buffer + shift;
-		}
-		// Update end to the last line read
-		end = current + bufferRead;
-		if ((limit < 0 || counter < limit) && 
-			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
-			// If there isn't a new line or carriage return at the end
-			// we won't be able to determine the end of last line, so
-			// set the end byte to '\n' and increase the end by 1.
-			// This is safe as the buffer read at this point is always
-			// smaller than the allocated size.
-			*end = '\n';
-			end++;
+			if (lineEnd < end || 
+				(endOfFile && line < end && end < bufferEnd)) {
+				// Either the end of the line is in the buffer, or this is the
+				// last line in the file and it has no line ending. There is
+				// always space for the null.
+				*lineEnd = '\0';
+				callback(line, state);
+				counter++;
+				line = lineEnd < end ? lineEnd + 1 : end;
+			}
+			else if (endOfFile) {
+				break;
+			}
+			else {
+				// Shift the part of the line already read to the left and load
+				// the next characters. If the line is too long for the buffer
+				// then the characters already read are skipped.
+				if (line == buffer && end == bufferEnd) {
+					line = end;
+				}
+				memmove(buffer, line, end - line);
+				end = buffer + (end - line);
+				line = buffer;
+				available = bufferEnd - end;
+				bytesRead = fread(end, sizeof(char), available, handle);
+				end += bytesRead;
+				endOfFile = bytesRead < available || available == 0;
+			}
 		}
 		fclose(handle);
-
-		// Return any final lines held in the buffer.
-		while (current < end && 
-			(limit < 0 || counter < limit)) {
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			buffer = current;
-			counter++;
-		}
 	}
 }
 
-- 
2.43.0


From 7ddbd2c394042f1c2440f0b19c6e21a0d3eb0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:08 +0000
Subject: [PATCH 41/82] fix: keep YAML pairs inside their storage and report
 files that can't be read

---
 yamlfile.c | 142 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 100 insertions(+), 42 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..7be58b1 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -29,8 +29,10 @@ const size_t CONTROL_LENGTH = 3;
 typedef struct pair_state_t {
 	KeyValuePair* pairs; // array of key value evidence pairs
 	uint16_t size; // total available keyValuePairs
-	int16_t index; // current index being populated in the keyValuePairs
-	char* current; // current pointer to character in the pair
+	int32_t index; // current index being populated in the keyValuePairs
+	char* current; // current pointer to character in the pair, or NULL if
+	               // there is no pair to populate
+	char* start; // first pointer that is valid
 	char* end; // last pointer that is valid
 } PairState;
 
@@ -55,12 +57,12 @@ static StatusCode readNextBlock(FileState* fileState) {
 		sizeof(char),
 		fileState->bufferLength,
 		fileState->handle);
-	if (bytesRead == 0 && !feof(fileState->handle)) {
-		status = INSUFFICIENT_MEMORY;
-	}
-	else if (ferror(fileState->handle)) {
+	if (ferror(fileState->handle)) {
 		status = FILE_READ_ERROR;
 	}
+	else if (bytesRead == 0 && !feof(fileState->handle)) {
+		status = INSUFFICIENT_MEMORY;
+	}
 	else if (bytesRead == 0) {
 		status = FILE_END_OF_FILE;
 	}
@@ -70,44 +72,79 @@ static StatusCode readNextBlock(FileState* fileState) {
 }
 
 // Read the next character or null if there are no more characters to be read.
-static char* readNext(FileState* fileState) {
-	StatusCode status = SUCCESS;
+// The status is set if that is because the file could not be read.
+static char* readNext(FileState* fileState, StatusCode* status) {
+	StatusCode blockStatus;
 	fileState->current++;
 	if (fileState->current > fileState->end) {
-		status = readNextBlock(fileState);
-		if (status != SUCCESS) {
+		blockStatus = readNextBlock(fileState);
+		if (blockStatus != SUCCESS) {
+			if (blockStatus != FILE_END_OF_FILE) {
+				*status = blockStatus;
+			}
 			return NULL;
 		}
 	}
 	return fileState->current;
 }
 
-// Sets the current and end pointers to the current key.
-static void setCurrentKey(PairState* state) {
-	KeyValuePair* current = state->pairs + state->index;
-	state->current = current->key;
-	state->end = current->key + current->keyLength - 1;
+// Sets the start, current and end pointers to the string provided, or to NULL
+// if there is no space for even the null terminator.
+static void setCurrent(PairState* state, char* string, size_t length) {
+	state->start = length > 0 ? string : NULL;
+	state->current = state->start;
+	state->end = length > 0 ? string + length - 1 : NULL;
+}
+
+// True if there is a pair to populate at the current index.
+static bool isPair(PairState* state) {
+	return state->index >= 0 && state->index < (int32_t)state->size;
 }
 
-// Sets the current and end pointers to the current value.
+// Ensures that the current string being written is null terminated.
+static void terminate(PairState* state) {
+	if (state->current != NULL) {
+		*state->current = '\0';
+	}
+}
+
+// Sets the current and end pointers to the current value. The value is empty
+// until it is added to.
 static void setCurrentValue(PairState* state) {
-	KeyValuePair* current = state->pairs + state->index;
-	state->current = current->value;
-	state->end = current->value + current->valueLength - 1;
+	if (isPair(state)) {
+		KeyValuePair* current = state->pairs + state->index;
+		setCurrent(state, current->value, current->valueLength);
+		terminate(state);
+	}
+	else {
+		setCurrent(state, NULL, 0);
+	}
+}
+
+// Sets the current and end pointers to the current key. The pair has no value
+// until one is found.
+static void setCurrentKey(PairState* state) {
+	setCurrentValue(state);
+	if (isPair(state)) {
+		KeyValuePair* current = state->pairs + state->index;
+		setCurrent(state, current->key, current->keyLength);
+	}
 }
 
 // Switches from writing to the current key to the current value. Ensures that
 // the current string being written is null terminated.
 static void switchKeyValue(PairState* state) {
-	*state->current = '\0';
+	terminate(state);
 	setCurrentValue(state);
 }
 
 // Advances to the next key value pair. Ensures that the current string being 
-// written is null terminated.
+// written is null terminated. Pairs there is no space for are not populated.
 static void nextPair(PairState* state) {
-	*state->current = '\0';
-	state->index++;
+	terminate(state);
+	if (state->index < (int32_t)state->size) {
+		state->index++;
+	}
 	setCurrentKey(state);
 }
 
@@ -124,6 +161,7 @@ static void newLine(FileState* state) {
 // Sets the pairs for a new document.
 static void newDocument(PairState* state) {
 	state->index = -1;
+	setCurrentKey(state);
 }
 
 // Move the character position along by one.
@@ -141,15 +179,31 @@ static bool isValue(FileState* state) {
 static void addCharacter(
 	PairState* pairState, 
 	FileState* fileState, 
-	char* current) {
+	const char* current) {
 	if (pairState->current < pairState->end &&
-		pairState->index < pairState->size &&
 		isValue(fileState)) {
 		*pairState->current = *current;
 		pairState->current++;
 	}
 }
 
+// If the line started with fewer dashes or dots than are needed for a control
+// block, then they are the start of the key.
+static void addControlCharacters(PairState* pairState, FileState* fileState) {
+	if (fileState->position > 0) {
+		if (fileState->position == fileState->dashCount) {
+			for (size_t i = 0; i < fileState->dashCount; i++) {
+				addCharacter(pairState, fileState, "-");
+			}
+		}
+		else if (fileState->position == fileState->dotCount) {
+			for (size_t i = 0; i < fileState->dotCount; i++) {
+				addCharacter(pairState, fileState, ".");
+			}
+		}
+	}
+}
+
 StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	const char* fileName,
 	char* buffer,
@@ -171,22 +225,26 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		handle, 
 		buffer, 
 		length,
-		// Set the end and current to 0 to force the next block to be read.
-		0,
-		0,
+		// Set the end and current to the same character to force the next
+		// block to be read.
+		buffer,
+		buffer,
 		0, 
 		0,
+		// The file starts with a new line.
+		1,
 		0,
 		0,
-		0,
-		false };
+		0 };
 
 	PairState pairState = {
 		keyValuePairs,
 		collectionSize,
 		0,
-		keyValuePairs[0].key,
-		keyValuePairs[0].key + keyValuePairs[0].keyLength - 1 };
+		NULL,
+		NULL,
+		NULL };
+	setCurrentKey(&pairState);
 
 	// If there is no limit then set the limit to the largest value to 
 	// avoid checking for negative values in the loop.
@@ -194,8 +252,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		limit = INT_MAX;
 	}
 
-	while (true) {
-		current = readNext(&fileState);
+	while (count < limit) {
+		current = readNext(&fileState, &status);
 
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
@@ -204,6 +262,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					pairState.current > pairState.start &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
@@ -214,9 +273,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				fileState.newLineCount++;
 			}
 			else {
-				// EOF
-				if (pairState.index > 0) {
-					callback(keyValuePairs, pairState.index, state);
+				// EOF, or the rest of the document can't be read.
+				if (status == SUCCESS && pairState.index > 0) {
+					callback(keyValuePairs, (uint16_t)pairState.index, state);
 				}
 				break;
 			}
@@ -230,11 +289,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			if (fileState.dashCount == CONTROL_LENGTH) {
 				if (pairState.index > 0)
 				{
-					callback(keyValuePairs, pairState.index, state);
+					callback(keyValuePairs, (uint16_t)pairState.index, state);
 					count++;
-					if (count >= limit) {
-						break;
-					}
 				}
 				newDocument(&pairState);
 			}
@@ -247,7 +303,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			if (fileState.dotCount == CONTROL_LENGTH) {
 				if (pairState.index > 0)
 				{
-					callback(keyValuePairs, pairState.index, state);
+					callback(keyValuePairs, (uint16_t)pairState.index, state);
 				}
 				break;
 			}
@@ -256,6 +312,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		// If the first colon then switch adding from the key to the value.
 		// Record the colon having been passed.
 		else if (*current == ':' && fileState.colon == 0) {
+			addControlCharacters(&pairState, &fileState);
 			advance(&fileState);
 			switchKeyValue(&pairState);
 			fileState.colon = fileState.position;
@@ -276,6 +333,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		// Not a control character just add to the current key or value if
 		// there is space remaining.
 		else {
+			addControlCharacters(&pairState, &fileState);
 			advance(&fileState);
 			addCharacter(&pairState, &fileState, current);
 		}
-- 
2.43.0


From c5e8490185102e5be662e8f0cc1a1622cab22d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 42/82] fix: find overrides of properties whose names are one
 character

---
 overrides.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overrides.c b/overrides.c
index 675e84c..d231c6f 100644
--- a/overrides.c
+++ b/overrides.c
@@ -94,7 +94,7 @@ static bool startsWith(String *string, String *prefix) {
  */
 static const char* skipPrefix(bool prefixed, const char *field) {
 	char *result = (char*)field;
-	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) &&
+	if (prefixed == true && strlen(result) >= sizeof(OVERRIDE_PREFIX) &&
 		StringCompareLength(
 			field,
 			OVERRIDE_PREFIX,
-- 
2.43.0


From 4d43accd1a941e184c50d76b4daeae28bd289056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 43/82] fix: use every override in the evidence and add those
 there is memory for

---
 overrides.c | 51 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/overrides.c b/overrides.c
index d231c6f..568235a 100644
--- a/overrides.c
+++ b/overrides.c
@@ -36,6 +36,7 @@ typedef struct add_state_t {
 									   overridden */
 	OverrideValueArray *values; /* Values from evidence to use when fetching
 								overridden properties */
+	uint32_t count; /* Number of values added from evidence */
 } addState;
 
 #ifdef _MSC_VER
@@ -134,7 +135,7 @@ bool fiftyoneDegreesOverridesAdd(
 	size_t length;
 	String *copy;
 	OverrideValue *override;
-	if (requiredPropertyIndex >= 0 && values->count < values->capacity) {
+	if (requiredPropertyIndex >= 0) {
 
 		// Set the override either as a new item, or override an existing
 		// one if there is already one with the same required property
@@ -144,8 +145,27 @@ bool fiftyoneDegreesOverridesAdd(
 			requiredPropertyIndex) {
 			currentOverrideIndex++;
 		}
+		if (currentOverrideIndex >= values->capacity) {
+			return false;
+		}
 		override = &values->items[currentOverrideIndex];
 
+		// Ensure there is sufficient memory for the string being copied. If
+		// there isn't then remove any existing override as its memory may have
+		// been freed.
+		length = strlen(value);
+		copy = (String*)fiftyoneDegreesDataMalloc(
+			&override->string,
+			sizeof(String) + length);
+		if (copy == NULL) {
+			if (currentOverrideIndex < values->count) {
+				values->count--;
+				*override = values->items[values->count];
+				DataReset(&values->items[values->count].string);
+			}
+			return false;
+		}
+
 		if (currentOverrideIndex == values->count) {
 			// Increment the override count and set the required property
 			// index.
@@ -153,19 +173,14 @@ bool fiftyoneDegreesOverridesAdd(
 			override->requiredPropertyIndex = requiredPropertyIndex;
 		}
 
-		// Ensure there is sufficient memory for the string being copied.
-		length = strlen(value);
-		copy = (String*)fiftyoneDegreesDataMalloc(
-			&override->string,
-			sizeof(String) + length);
-
 		// Copy the string from the evidence pair to the override data 
-		// item.
+		// item. The size does not exceed the largest that can be stored.
 		memcpy(&copy->value, value, length + 1);
-		copy->size = (int16_t)(length + 1);
+		copy->size = length < INT16_MAX ? (int16_t)(length + 1) : INT16_MAX;
+		return true;
 	}
 
-	return values->count < values->capacity;
+	return false;
 }
 
 
@@ -177,10 +192,16 @@ static bool addOverrideToResults(void *state, EvidenceKeyValuePair *pair) {
 		add->properties,
 		pair->field);
 
-	return fiftyoneDegreesOverridesAdd(
+	if (fiftyoneDegreesOverridesAdd(
 		add->values,
 		requiredPropertyIndex,
-		(const char*)pair->parsedValue);
+		(const char*)pair->parsedValue)) {
+		add->count++;
+	}
+
+	// Any evidence after this might be an override, including of a property
+	// which already has a value.
+	return true;
 }
 
 static uint32_t countOverridableProperties(
@@ -256,18 +277,18 @@ uint32_t fiftyoneDegreesOverridesExtractFromEvidence(
 	fiftyoneDegreesOverrideValueArray *values,
 	fiftyoneDegreesEvidenceKeyValuePairArray *evidence) {
 	addState state;
-	uint32_t count = 0;
+	state.count = 0;
 	if (properties != NULL && values != NULL) {
 		state.values = values;
 		state.properties = properties;
-		count = EvidenceIterate(
+		EvidenceIterate(
 			evidence,
 			FIFTYONE_DEGREES_EVIDENCE_COOKIE | 
 			FIFTYONE_DEGREES_EVIDENCE_QUERY,
 			&state,
 			addOverrideToResults);
 	}
-	return count;
+	return state.count;
 }
 
 fiftyoneDegreesString* fiftyoneDegreesOverrideValuesGetFirst(
-- 
2.43.0


From 9f89e8c7e04d492d5de7260b95a655b5db2db053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 44/82] fix: override only with the profile ids in the evidence
 however large

---
 overrides.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/overrides.c b/overrides.c
index 568235a..cd410e1 100644
--- a/overrides.c
+++ b/overrides.c
@@ -426,9 +426,14 @@ void fiftyoneDegreesOverrideValuesReset(
 
 static void extractProfileId(char *value, overrideProfileIds *state) {
 	if (*value >= 0 && isdigit(*value) != 0) {
-		int profileId = atoi(value);
-		if (profileId >= 0) {
-			state->override(state->state, profileId);
+		// Ids which are too large can't be those of a profile.
+		uint64_t profileId = 0;
+		while (*value >= 0 && isdigit(*value) != 0 && profileId <= UINT32_MAX) {
+			profileId = profileId * 10 + (uint64_t)(*value - '0');
+			value++;
+		}
+		if (profileId <= UINT32_MAX) {
+			state->override(state->state, (uint32_t)profileId);
 		}
 	}
 }
-- 
2.43.0


From 0d30ab32552221bca06203ce9fe58a7cf7af9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 45/82] fix: construct no more pseudo evidence than there is
 space for

---
 pseudoheader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..8eb4081 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -188,7 +188,9 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
                     evidence,
                     header,
                     orderOfPrecedence,
-                    precedenceSize) == false) {
+                    precedenceSize) == false &&
+                    evidence->pseudoEvidence->count <
+                    evidence->pseudoEvidence->capacity) {
                     buffer = (char*)evidence->pseudoEvidence->items[
                         evidence->pseudoEvidence->count].originalValue;
                     if (buffer != NULL) {
-- 
2.43.0


From 29b9c5426feeaa64b21e8e0f8ed485467276bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 46/82] fix: construct no pseudo evidence with a missing part
 when the buffer is full

---
 pseudoheader.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index 8eb4081..d96bbdd 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -76,6 +76,7 @@ static int constructPseudoEvidence(
     EvidencePrefix prefix) {
     uint32_t i;
     int added;
+    int truncated = 0;
     HeaderSegment* segment;
     const char* value;
     char* current = buffer;
@@ -97,6 +98,12 @@ static int constructPseudoEvidence(
             return 0;
         }
 
+        // If the buffer is already full then only check that there is evidence
+        // for the remaining segments.
+        if (truncated > 0) {
+            continue;
+        }
+
         // If this is a subsequent segment value then add the separator.
         // make sure that we don't cause heap overflow by overwriting the terminating \0 (at position max - 1)
         if (i != 0 && current < max - 1) {
@@ -113,12 +120,13 @@ static int constructPseudoEvidence(
 		else if (added >= max - current) {
             // Don't nullify the buffer in this case, just report that
             // it is truncated.
-            return (int)(current - buffer + added);
+            truncated = (int)(current - buffer + added);
+            continue;
         }
         current += added;
     }
 
-    return (int)(current - buffer);
+    return truncated > 0 ? truncated : (int)(current - buffer);
 }
 
 /*
-- 
2.43.0


From eb5899be25bda4672933a7c8c5c033b22b60a98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 47/82] fix: a value looked up by name and not found was
 released twice

---
 value.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 16bdbbc..7141411 100644
--- a/value.c
+++ b/value.c
@@ -204,6 +204,10 @@ long fiftyoneDegreesValueGetIndexByName(
 	Item item;
 	valueSearch search;
 	long index;
+	if ((int)property->firstValueIndex == -1) {
+		// The property has no values.
+		return -1;
+	}
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
@@ -215,7 +219,8 @@ long fiftyoneDegreesValueGetIndexByName(
 		(void*)&search,
 		compareValueByName,
 		exception);
-	if (EXCEPTION_OKAY) {
+	if (index >= 0 && EXCEPTION_OKAY) {
+		// The binary search only leaves the item held when it was found.
 		COLLECTION_RELEASE(values, &item);
 	}
 	return index;
-- 
2.43.0


From b7552d9eb13374d2c8af80793b864c55990ce4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 48/82] fix: the name of a property was released to the wrong
 collection and a property whose name can't be read was returned

---
 property.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/property.c b/property.c
index 9ee0eb6..c171ec1 100644
--- a/property.c
+++ b/property.c
@@ -125,19 +125,20 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				property,
 				&propertyNameItem,
 				exception);
-			if (name != NULL) {
 
-				// If the property name for this index doesn't match then
-				// release the property and set the property pointer back to
-				// zero.
-				if (EXCEPTION_OKAY &&
-					strcmp(&name->value, requiredPropertyName) != 0) {
-					property = NULL;
-					COLLECTION_RELEASE(properties, item);
-				}
+			// If the property name for this index can't be read or doesn't
+			// match then release the property and set the property pointer
+			// back to zero.
+			if (name == NULL ||
+				EXCEPTION_FAILED ||
+				strcmp(&name->value, requiredPropertyName) != 0) {
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
+			}
 
-				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+			// Release the property name as this is not needed again.
+			if (name != NULL && EXCEPTION_OKAY) {
+				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
 		}
 	}
-- 
2.43.0


From 0464afeb042850141d3340a2bddac80c03b995dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 49/82] fix: the key value pair after the last of a component
 was returned

---
 component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 34de863..922eb0e 100644
--- a/component.c
+++ b/component.c
@@ -67,7 +67,7 @@ const fiftyoneDegreesComponentKeyValuePair* fiftyoneDegreesComponentGetKeyValueP
 	uint16_t index,
 	fiftyoneDegreesException *exception) {
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-	if (index > component->keyValuesCount) {
+	if (index >= component->keyValuesCount) {
 		EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
 		return NULL;
 	}
-- 
2.43.0


From cbd5498e68117186344ddef831f410a66bc649ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 50/82] fix: the list of components was endless when one can't
 be read and not reported when memory runs out

---
 component.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/component.c b/component.c
index 922eb0e..cd25337 100644
--- a/component.c
+++ b/component.c
@@ -119,6 +119,12 @@ void fiftyoneDegreesComponentInitList(
 				// Move to the next component in the collection.
 				offset += getFinalComponentSize((void*)component);
 			}
+			else {
+				break;
+			}
 		}
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 }
-- 
2.43.0


From 3cf9da3eb577d79c09fc750fe7d2f2d4da9e7dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 51/82] fix: looking up a profile id where there are no
 profiles failed

---
 profile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 8a1a2c0..529fc0c 100644
--- a/profile.c
+++ b/profile.c
@@ -159,7 +159,8 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 	if (profileId == 0) {
 		EXCEPTION_SET(PROFILE_EMPTY);
 	}
-	else if (CollectionBinarySearch(
+	else if (CollectionGetCount(profileOffsets) > 0 &&
+		CollectionBinarySearch(
 		profileOffsets,
 		&profileOffsetItem,
 		0,
-- 
2.43.0


From b9a3e7a59413220dc6eae898614df03601d184bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 52/82] fix: the value index after the last of a profile was
 read

---
 profile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profile.c b/profile.c
index 529fc0c..2aa5c2c 100644
--- a/profile.c
+++ b/profile.c
@@ -128,8 +128,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -324,9 +324,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
 									callback(state, &profileItem);
-- 
2.43.0


From f8f0082d7c7a9b2561c207d81016ae040205adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 53/82] fix: iterating profiles did not stop when told to and
 released profiles to the wrong collection

---
 profile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/profile.c b/profile.c
index 2aa5c2c..b95fceb 100644
--- a/profile.c
+++ b/profile.c
@@ -282,6 +282,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 	fiftyoneDegreesProfileIterateMethod callback,
 	fiftyoneDegreesException *exception) {
 	uint32_t i, count = 0;
+	bool cont = true;
 	Item propertyItem, offsetItem, profileItem;
 	uint32_t *profileValueIndex, *maxProfileValueIndex;
 	Property *property;
@@ -305,7 +306,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0;
+				i < profileOffsetsCount && cont == true && EXCEPTION_OKAY;
+				i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
@@ -329,14 +332,14 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
-									callback(state, &profileItem);
+									cont = callback(state, &profileItem);
 									count++;
 									break;
 								}
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
-- 
2.43.0


From 0899d91cd403f6bebdd94495be0a1e7b6a45cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 54/82] fix: running out of memory while looking up an IP
 address value was taken for a match

---
 value.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/value.c b/value.c
index 7141411..04375ce 100644
--- a/value.c
+++ b/value.c
@@ -78,10 +78,15 @@ static int compareCoordinate(String *value, const char *target) {
  * @param value the current String item
  * @param target the target search value. This should
  * be in string readable format of an IP address.
+ * @param exception pointer to an exception data structure
+ * to be used if there is no memory for the comparison
  * @return 0 if they are equal, otherwise negative
  * for smaller and positive for bigger
  */
-static int compareIpAddress(String *value, const char *target) {
+static int compareIpAddress(
+	String *value,
+	const char *target,
+	Exception *exception) {
 	int result = 0;
 	fiftyoneDegreesEvidenceIpAddress *ipAddress
 		= fiftyoneDegreesIpParseAddress(
@@ -116,6 +121,10 @@ static int compareIpAddress(String *value, const char *target) {
 		}
 		Free(ipAddress);
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+		result = -1;
+	}
 	return result;
 }
 
@@ -141,7 +150,10 @@ static int compareValueByName(void *state, Item *item, long curIndex, Exception
 			result = compareCoordinate(value,search->valueName);
 			break;
 		case FIFTYONE_DEGREES_STRING_IP_ADDRESS:
-			result = compareIpAddress(value, search->valueName);
+			result = compareIpAddress(
+				value,
+				search->valueName,
+				exception);
 			break;
 		default:
 			result = strcmp(&value->value, search->valueName);
-- 
2.43.0


From ab0e58bffadcc31da5e2e2913e860c3fcd796b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 55/82] fix: a memory reader advanced by a huge size ended
 before where it was

---
 memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..5bb79f4 100644
--- a/memory.c
+++ b/memory.c
@@ -60,10 +60,11 @@ bool fiftyoneDegreesMemoryAdvance(
 	if (reader == NULL || reader->current == NULL) {
 		return false;
 	}
-	reader->current += advanceBy;
-	if (reader->current > reader->lastByte) {
+	if (reader->current > reader->lastByte ||
+		advanceBy > (size_t)(reader->lastByte - reader->current)) {
 		return false;
 	}
+	reader->current += advanceBy;
 	return true;
 }
 
-- 
2.43.0


From c11b1120b968385bb72d5dc0fffd79480a263cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 56/82] fix: aligned allocations were not rounded up to a
 multiple of the alignment

---
 memory.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 5bb79f4..5282846 100644
--- a/memory.c
+++ b/memory.c
@@ -72,8 +72,20 @@ void* fiftyoneDegreesMemoryStandardMalloc(size_t size) {
 	return malloc(size);
 }
 
+/**
+ * Returns the size rounded up to a multiple of the alignment as required by
+ * aligned_alloc, or the size itself if it is too big to be rounded up.
+ */
+static size_t getAlignedSize(int alignment, size_t size) {
+	size_t remainder = size % alignment;
+	if (remainder > 0 && size <= SIZE_MAX - alignment) {
+		size += alignment - remainder;
+	}
+	return size;
+}
+
 void* fiftyoneDegreesMemoryStandardMallocAligned(int alignment, size_t size) {
-	size += size % alignment;
+	size = getAlignedSize(alignment, size);
 #if defined( _MSC_VER) || defined(__MINGW32__) || defined(__MINGW64__)
 	return _aligned_malloc(size, alignment);
 #elif defined (__APPLE__)
@@ -195,7 +207,7 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	trackAllocation(pointer, getAlignedSize(alignment, size));
 	return pointer;
 }
 
-- 
2.43.0


From a57aaa061ff87bda7f8fc40289c2ef56dc21a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 57/82] fix: failed allocations were tracked and freeing
 nothing ended the process

---
 memory.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/memory.c b/memory.c
index 5282846..c2b3e25 100644
--- a/memory.c
+++ b/memory.c
@@ -207,7 +207,9 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, getAlignedSize(alignment, size));
+	if (pointer != NULL) {
+		trackAllocation(pointer, getAlignedSize(alignment, size));
+	}
 	return pointer;
 }
 
@@ -220,7 +222,9 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size);
+	if (pointer != NULL) {
+		trackAllocation(pointer, size);
+	}
 	return pointer;
 }
 
@@ -237,13 +241,17 @@ void fiftyoneDegreesMemoryStandardFreeAligned(void* pointer) {
 }
 
 void fiftyoneDegreesMemoryTrackingFree(void *pointer) {
-	untrackAllocation(pointer);
+	if (pointer != NULL) {
+		untrackAllocation(pointer);
+	}
 	// Finally free the pointer.
 	MemoryStandardFree(pointer);
 }
 
 void fiftyoneDegreesMemoryTrackingFreeAligned(void* pointer) {
-	untrackAllocation(pointer);
+	if (pointer != NULL) {
+		untrackAllocation(pointer);
+	}
 	// Finally free the pointer.
 	MemoryStandardFreeAligned(pointer);
 }
-- 
2.43.0


From 1f35cb79f9b5376f08b906db15d421c8275afb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 58/82] fix: freeing 4GB or more left the total of the tracked
 memory wrong

---
 memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index c2b3e25..57c7403 100644
--- a/memory.c
+++ b/memory.c
@@ -39,7 +39,7 @@ static bool initialised = false;
 
 typedef struct memory_allocation_t {
 	fiftyoneDegreesTreeNode tree; /* Tree node data structure */
-	uint32_t size; /* The amount of memory allocated at pointer */
+	size_t size; /* The amount of memory allocated at pointer */
 } allocation;
 
 typedef struct memory_allocation_tree_t {
@@ -135,7 +135,7 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	record->size = (uint32_t)size;
+	record->size = size;
 
 	// Update the tracking tree with the new allocation.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -161,7 +161,7 @@ static void trackAllocation(void* pointer, size_t size) {
 }
 
 static void untrackAllocation(void *pointer) {
-	uint32_t size;
+	size_t size;
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
-- 
2.43.0


From dcb42e804e22a895152a8af2c7b557b162d10d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 59/82] fix: memory tracked before a reset was mistaken for
 later allocations at the same address

---
 memory.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index 57c7403..ef40264 100644
--- a/memory.c
+++ b/memory.c
@@ -178,7 +178,14 @@ static void untrackAllocation(void *pointer) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	assert(record != NULL);
+	if (record == NULL) {
+		// The memory was allocated before the tracking was last reset so is
+		// not part of the total.
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+		FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[shard]);
+#endif
+		return;
+	}
 	size = record->size;
 	fiftyoneDegreesTreeDelete(&record->tree);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -264,6 +271,21 @@ size_t fiftyoneDegreesMemoryTrackingGetAllocated() {
 	return state.allocated;
 }
 
+static void resetShard(int shard) {
+	fiftyoneDegreesTreeRoot *root = &state.roots[shard];
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	FIFTYONE_DEGREES_MUTEX_LOCK(&state.locks[shard]);
+#endif
+	while (root->root.left != &root->empty) {
+		allocation *record = (allocation*)root->root.left;
+		fiftyoneDegreesTreeDelete(&record->tree);
+		free(record);
+	}
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[shard]);
+#endif
+}
+
 void fiftyoneDegreesMemoryTrackingReset() {
 	int i;
 	if (initialised == false) {
@@ -277,6 +299,14 @@ void fiftyoneDegreesMemoryTrackingReset() {
 		FIFTYONE_DEGREES_MUTEX_CREATE(state.lock);
 #endif
 	}
+	else {
+		// Forget the memory which is still tracked. It does not contribute to
+		// the totals from now on, and the same pointers could be returned by
+		// other allocations.
+		for (i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) {
+			resetShard(i);
+		}
+	}
 	state.allocated = 0;
 	state.max = 0;
 	initialised = true;
-- 
2.43.0


From d4b00879eacaccdf9ce8bbf76acf2015bdf2f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:12 +0000
Subject: [PATCH 60/82] fix: memory allocated for no bytes of data was never
 freed

---
 data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data.c b/data.c
index dd8e645..a9fa701 100644
--- a/data.c
+++ b/data.c
@@ -40,6 +40,10 @@ void* fiftyoneDegreesDataMalloc(
 		data->allocated = 0;
 	}
 	if (data->allocated == 0) {
+		if (bytesNeeded == 0) {
+			// Allocate something so that the memory is known to be allocated.
+			bytesNeeded = 1;
+		}
 		data->ptr = (byte*)Malloc(bytesNeeded);
 		if (data->ptr != NULL) {
 			data->allocated = (uint32_t)bytesNeeded;
-- 
2.43.0


From 4cbf14fe93f661bbc57ba7994e9e288ccf2d462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 61/82] fix: keep the value of subnormal floats in the portable
 form

NativeToFloat stored frexp's significand as the mantissa without the
exponent that goes with it, so that every subnormal came back as a
value in the top half of the subnormal range.
---
 float.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/float.c b/float.c
index 56dc875..42f75b6 100644
--- a/float.c
+++ b/float.c
@@ -100,9 +100,12 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 		floatU.parts.sign = (f >= 0) ? 0 : -1;
 		/*
 		 * Significand is fractional so time with 2 to power of number of mantissa bits
-		 * to get its integer
+		 * to get its integer. As the exponent of a subnormal is always treated as
+		 * (1 - bias), the exponent returned by frexp needs to be part of the mantissa.
 		 */
-		floatU.parts.mantissa = (int)(fabsf(significand) * powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
+		floatU.parts.mantissa = (int)(fabsf(significand) * powf(
+			FIFTYONE_DEGREES_FLOAT_RADIX,
+			(float)(exponent + FIFTYONE_DEGREES_FLOAT_BIAS - 1 + FIFTYONE_DEGREES_FLOAT_MANT_SIZE)));
 		break;
 	case FP_NORMAL:
 		significand = (float)frexp(f, &exponent);
-- 
2.43.0


From 289d21ebef42fef252a92598d23502ab6c189eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 62/82] fix: compile file.c with exceptions disabled

The exception is a plain pointer in that configuration and has no
status to read.
---
 file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/file.c b/file.c
index 3f08afe..6d31c25 100644
--- a/file.c
+++ b/file.c
@@ -996,9 +996,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			status = FILE_FAILURE;
 		}
 	}
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
 	else if (EXCEPTION_FAILED) {
 		status = exception->status;
 	}
+#endif
 	else {
 		status = INSUFFICIENT_MEMORY;
 	}
-- 
2.43.0


From 042af83ca96273f48d9d747fd649a00eef12e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 63/82] fix: complete status messages, and none when out of
 memory

The text for a code without a message was cut short for codes of more
than seven characters. When memory ran out it was written through a
null pointer, or given in place of the text of a known code.
---
 status.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/status.c b/status.c
index 8ba7735..3a8bd46 100644
--- a/status.c
+++ b/status.c
@@ -149,12 +149,13 @@ const char* fiftyoneDegreesStatusGetMessage(
 			if (message != NULL) {
 				Snprintf(message, messageSize, current->message, fileName);
 			}
-			break;
+			return message;
 		}
 	}
-	if( message == NULL) {
-		messageSize = sizeof(defaultMessage) + 5;
-		message = (char*)Malloc(messageSize);
+	// message with '\0' + the most characters of an int - "%i"
+	messageSize = sizeof(defaultMessage) + 9;
+	message = (char*)Malloc(messageSize);
+	if (message != NULL) {
 		Snprintf(message, messageSize, defaultMessage, (int)status);
 	}
 	return message;
-- 
2.43.0


From 911b05d576d19edb99f25e96c1ddcec214582c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 64/82] fix: exception texts without a source, memory or
 exception support

A missing file or function name was passed as null to a string format,
a failed allocation was written to, and with exceptions disabled the
caller was given a literal to free.
---
 exceptionsc.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..48f3ccf 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -44,14 +44,16 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		length += exception->func != NULL ? strlen(exception->func) : 0;
 		length += 10; // add 10 for line number
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				exception->file != NULL ? exception->file : "null",
+				exception->func != NULL ? exception->func : "null",
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
@@ -79,7 +81,7 @@ void fiftyoneDegreesExceptionCheckAndExit(
 
 const char* fiftyoneDegreesExceptionGetMessage(
 	fiftyoneDegreesException *exception) {
-	return "";
+	return NULL;
 }
 void fiftyoneDegreesExceptionCheckAndExit(
 	fiftyoneDegreesException *exception) {
-- 
2.43.0


From 8bdcd44d0d62101ae87070e4127bd9510d5b6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 65/82] fix: give C++ exceptions the status code they were made
 from

A FatalException never set its code, and a StatusCodeException left it
unset when there was no memory for the message.
---
 Exceptions.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index fd9d9e0..d3b8adc 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -25,26 +25,25 @@
 
 using namespace FiftyoneDegrees::Common;
 
-StatusCodeException::StatusCodeException() {}
+StatusCodeException::StatusCodeException() : exception(),
+	statusCode(FIFTYONE_DEGREES_STATUS_NOT_SET) {}
 
 StatusCodeException::StatusCodeException(
-	fiftyoneDegreesStatusCode code) : exception() {
+	fiftyoneDegreesStatusCode code) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, nullptr);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code,
-	const char *fileName) : exception() {
+	const char *fileName) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, fileName);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 StatusCodeException::~StatusCodeException() {}
@@ -64,6 +63,9 @@ FatalException::FatalException(
 		message.append(exceptionMessage);
 		Free((void*)exceptionMessage);
 	}
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
+	statusCode = exception->status;
+#endif
 }
 
 NotImplementedException::NotImplementedException() 
-- 
2.43.0


From 41b193da45d314696b9ce7863a214ebf7b7fc678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:38 +0000
Subject: [PATCH 66/82] fix: reading required properties does not change or
 miscount them

The getters separated the string of names in place, leaving only the
first name in the configuration for every later use, and the count was
one less than the number of names.
---
 RequiredPropertiesConfig.cpp | 53 ++++++++++--------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3e7c1c2..06c0d81 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -90,7 +90,7 @@ RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 
 vector<string> RequiredPropertiesConfig::getProperties() const {
 	int i;
-	char *current;
+	const char *current, *end;
 	vector<string> result;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
@@ -98,10 +98,15 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			result.insert(result.end(), current);
-			current = strtok(NULL, ",");
+		// The string is also used by the configuration, so must not be
+		// altered while it is being separated.
+		current = conf.string;
+		while (*current != '\0') {
+			end = current + strcspn(current, ",");
+			if (end > current) {
+				result.insert(result.end(), string(current, end - current));
+			}
+			current = *end == ',' ? end + 1 : end;
 		}
 	}
 	return result;
@@ -109,22 +114,10 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 
 bool RequiredPropertiesConfig::containsProperty(
 	const char *property) const {
-	int i;
-	char *current;
-	if (conf.array != nullptr) {
-		for (i = 0; i < conf.count; i++) {
-			if (_stricmp(property, conf.array[i]) == 0) {
-				return true;
-			}
-		}
-	}
-	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			if (_stricmp(property, current) == 0) {
-				return true;
-			}
-			current = strtok(NULL, ",");
+	const vector<string> properties = getProperties();
+	for (size_t i = 0; i < properties.size(); i++) {
+		if (_stricmp(property, properties[i].c_str()) == 0) {
+			return true;
 		}
 	}
 	return false;
@@ -136,23 +129,7 @@ bool RequiredPropertiesConfig::containsProperty(
 }
 
 int RequiredPropertiesConfig::getCount() const {
-	int count;
-	char *current;
-	if (conf.array != nullptr) {
-		return conf.count;
-	}
-	else if (conf.string != nullptr) {
-		count = 0;
-		current = (char*)conf.string;
-		while (*current != '\0') {
-			if (*current == ',') {
-				count++;
-			}
-			current++;
-		}
-		return count;
-	}
-	return 0;
+	return (int)getProperties().size();
 }
 
 PropertiesRequired* RequiredPropertiesConfig::getConfig() {
-- 
2.43.0


From 0fbb3f5af9736df515f80b72e1325291847965eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:38 +0000
Subject: [PATCH 67/82] fix: setting the temporary directories again leaked the
 earlier ones

They were also written to when there was no memory for them.
---
 ConfigBase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ConfigBase.cpp b/ConfigBase.cpp
index 1b827c0..eea187a 100644
--- a/ConfigBase.cpp
+++ b/ConfigBase.cpp
@@ -81,9 +81,13 @@ void ConfigBase::freeTempDirectories() {
 }
 
 void ConfigBase::mapTempDirectories() {
-	config->tempDirCount = (int)tempDirs.size();
+	freeTempDirectories();
 	config->tempDirs = (const char**)Malloc(
-		config->tempDirCount * sizeof(const char*));
+		tempDirs.size() * sizeof(const char*));
+	if (config->tempDirs == NULL && tempDirs.empty() == false) {
+		throw StatusCodeException(INSUFFICIENT_MEMORY);
+	}
+	config->tempDirCount = (int)tempDirs.size();
 	for (int i = 0; i < config->tempDirCount; i++) {
 		config->tempDirs[i] = tempDirs.at(i).c_str();
 	}
-- 
2.43.0


From 0f7b9c18f6b740814c9991d1db9c7437035c92bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:38 +0000
Subject: [PATCH 68/82] fix: report no memory for the required properties

A failed allocation was written to.
---
 RequiredPropertiesConfig.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 06c0d81..b08397d 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -21,6 +21,7 @@
  * ********************************************************************* */
 
 #include "RequiredPropertiesConfig.hpp"
+#include "Exceptions.hpp"
 
 #include "fiftyone.h"
 
@@ -34,6 +35,23 @@ using namespace FiftyoneDegrees::Common;
 #define _strnicmp strncasecmp
 #endif
 
+static const char* copyString(const char *source) {
+	char *copy = (char*)Malloc(strlen(source) + 1);
+	if (copy == nullptr) {
+		throw StatusCodeException(INSUFFICIENT_MEMORY);
+	}
+	strcpy(copy, source);
+	return copy;
+}
+
+static const char** createArray(size_t count) {
+	const char **array = (const char**)Malloc(count * sizeof(const char*));
+	if (array == nullptr && count > 0) {
+		throw StatusCodeException(INSUFFICIENT_MEMORY);
+	}
+	return array;
+}
+
 RequiredPropertiesConfig::RequiredPropertiesConfig() {
 	conf.count = 0;
 	conf.array = nullptr;
@@ -44,12 +62,10 @@ RequiredPropertiesConfig::RequiredPropertiesConfig() {
 RequiredPropertiesConfig::RequiredPropertiesConfig(
 	vector<string> *properties) : RequiredPropertiesConfig() {
 	if (properties != nullptr) {
-		conf.count = (int)properties->size();
-		conf.array = (const char**)Malloc(
-			conf.count * sizeof(const char*));
-		for (int i = 0; i < conf.count; i++) {
-			conf.array[i] = (char*)Malloc((*properties)[i].size() + 1);
-			strcpy((char*)conf.array[i], (*properties)[i].c_str());
+		conf.array = createArray(properties->size());
+		for (size_t i = 0; i < properties->size(); i++) {
+			conf.array[i] = copyString((*properties)[i].c_str());
+			conf.count++;
 		}
 	}
 }
@@ -62,8 +78,7 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const char *properties) : RequiredPropertiesConfig() {
 	if (properties != nullptr) {
-		conf.string = (const char*)Malloc(strlen(properties) + 1);
-		strcpy((char*)conf.string, properties);
+		conf.string = copyString(properties);
 	}
 }
 
-- 
2.43.0


From dd88f3fb25fceb994cfe415d296a8986cc26510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:38 +0000
Subject: [PATCH 69/82] fix: copies of required properties and evidence own
 their memory

Copying shared the memory of the original, which both then freed.
---
 EvidenceBase.cpp             | 13 +++++++++++++
 EvidenceBase.hpp             | 13 +++++++++++++
 RequiredPropertiesConfig.cpp | 24 ++++++++++++++++++++++++
 RequiredPropertiesConfig.hpp | 14 ++++++++++++++
 4 files changed, 64 insertions(+)

diff --git a/EvidenceBase.cpp b/EvidenceBase.cpp
index 2d213dd..05b66d4 100644
--- a/EvidenceBase.cpp
+++ b/EvidenceBase.cpp
@@ -30,6 +30,19 @@ EvidenceBase::EvidenceBase() {
 	evidence = NULL;
 }
 
+EvidenceBase::EvidenceBase(const EvidenceBase &other)
+	: map<string, string>(other) {
+	evidence = NULL;
+}
+
+EvidenceBase& EvidenceBase::operator=(const EvidenceBase &other) {
+	if (this != &other) {
+		clear();
+		map<string, string>::operator=(other);
+	}
+	return *this;
+}
+
 EvidenceBase::~EvidenceBase() {
 	if (evidence != NULL) {
 		EvidenceFree(evidence);
diff --git a/EvidenceBase.hpp b/EvidenceBase.hpp
index 3dd7c5c..70a3913 100644
--- a/EvidenceBase.hpp
+++ b/EvidenceBase.hpp
@@ -76,6 +76,19 @@ namespace FiftyoneDegrees {
 			 */
 			EvidenceBase();
 
+			/**
+			 * Construct a new instance containing the same evidence as the
+			 * instance supplied, and none of its underlying memory.
+			 * @param other instance to copy
+			 */
+			EvidenceBase(const EvidenceBase &other);
+
+			/**
+			 * Replace the evidence with that of the instance supplied.
+			 * @param other instance to copy
+			 */
+			EvidenceBase& operator=(const EvidenceBase &other);
+
 			/**
 			 * Free all the underlying memory containing the evidence.
 			 */
diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index b08397d..102af22 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -22,6 +22,7 @@
 
 #include "RequiredPropertiesConfig.hpp"
 #include "Exceptions.hpp"
+#include <utility>
 
 #include "fiftyone.h"
 
@@ -90,6 +91,29 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const string *properties) : RequiredPropertiesConfig(
 	properties == nullptr ? nullptr : properties->c_str()) {}
 
+RequiredPropertiesConfig::RequiredPropertiesConfig(
+	const RequiredPropertiesConfig &other) : RequiredPropertiesConfig() {
+	if (other.conf.array != nullptr) {
+		conf.array = createArray((size_t)other.conf.count);
+		for (int i = 0; i < other.conf.count; i++) {
+			conf.array[i] = copyString(other.conf.array[i]);
+			conf.count++;
+		}
+	}
+	if (other.conf.string != nullptr) {
+		conf.string = copyString(other.conf.string);
+	}
+	conf.existing = other.conf.existing;
+}
+
+RequiredPropertiesConfig& RequiredPropertiesConfig::operator=(
+	const RequiredPropertiesConfig &other) {
+	// The copy frees the memory that was used by this instance.
+	RequiredPropertiesConfig copy(other);
+	std::swap(conf, copy.conf);
+	return *this;
+}
+
 RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 	int i;
 	if (conf.array != nullptr) {
diff --git a/RequiredPropertiesConfig.hpp b/RequiredPropertiesConfig.hpp
index dec372c..899f1af 100644
--- a/RequiredPropertiesConfig.hpp
+++ b/RequiredPropertiesConfig.hpp
@@ -109,6 +109,20 @@ namespace FiftyoneDegrees {
 			 */
 			RequiredPropertiesConfig(const string *properties);
 
+			/**
+			 * Construct a copy of the instance supplied with memory of its
+			 * own.
+			 * @param other instance to copy
+			 */
+			RequiredPropertiesConfig(const RequiredPropertiesConfig &other);
+
+			/**
+			 * Replace this instance with a copy of the instance supplied.
+			 * @param other instance to copy
+			 */
+			RequiredPropertiesConfig& operator=(
+				const RequiredPropertiesConfig &other);
+
 			/**
 			 * Destroy the configuration, freeing all the memory allocated
 			 * within it.
-- 
2.43.0


From 2f3afb6f59188ed26b1d3c2a3e7f022d92e71103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:38 +0000
Subject: [PATCH 70/82] fix: say why there is no value whatever the reason

The exception for no matched nodes or a null profile did not carry the
message for the missing value.
---
 Value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Value.hpp b/Value.hpp
index d2e5859..7e0bc13 100644
--- a/Value.hpp
+++ b/Value.hpp
@@ -147,7 +147,7 @@ namespace FiftyoneDegrees {
 					case FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN:
 						throw NoValuesAvailableException(noValueMessage);
 					default:
-						throw NoValuesAvailableException();
+						throw NoValuesAvailableException(noValueMessage);
 					}
 				}
 			}
-- 
2.43.0


From 5386fe65116e9f4380642bca131513b3b698dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 71/82] fix: free a memory-only collection's failed data with
 Free, not free

The data is allocated with Malloc, which can be replaced by the tracking
allocators or those of the application.
---
 collection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index 7dfeff2..07e0782 100644
--- a/collection.c
+++ b/collection.c
@@ -966,13 +966,13 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	// Position the file reader at the start of the collection.
 	if (fseek(file, header.startPosition, SEEK_SET) != 0) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
 	// Read the portion of the file into memory.
 	if (fread(memory.startByte, 1, header.length, file) != header.length) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
@@ -980,7 +980,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	result = CollectionCreateFromMemory(&memory, header);
 
 	if (result == NULL) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
-- 
2.43.0


From 62495ac0ca8000ee9de5be5e2f5a2d866e1a2f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:37 +0000
Subject: [PATCH 72/82] fix: tracked memory which can't be recorded is refused

When there was no memory for the record of an allocation it was
dereferenced, which was only checked with an assert.
---
 memory.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/memory.c b/memory.c
index ef40264..7952e82 100644
--- a/memory.c
+++ b/memory.c
@@ -120,11 +120,18 @@ static void tryInit() {
 	}
 }
 
-static void trackAllocation(void* pointer, size_t size) {
+/**
+ * Records the allocation.
+ * @return true if the allocation is tracked, or false if there is insufficient
+ * memory to record it
+ */
+static bool trackAllocation(void* pointer, size_t size) {
 	// Create a new tree node to record the allocation.
 	allocation* record = (allocation*)malloc(sizeof(allocation));
 	int shard = getShardFromPointer(pointer);
-	assert(record != NULL);
+	if (record == NULL) {
+		return false;
+	}
 	assert(shard < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS);
 	fiftyoneDegreesTreeNodeInit(&record->tree, &state.roots[shard]);
 #ifdef __GNUC__
@@ -158,6 +165,7 @@ static void trackAllocation(void* pointer, size_t size) {
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.lock);
 #endif
 
+	return true;
 }
 
 static void untrackAllocation(void *pointer) {
@@ -214,8 +222,10 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	if (pointer != NULL) {
-		trackAllocation(pointer, getAlignedSize(alignment, size));
+	if (pointer != NULL &&
+		trackAllocation(pointer, getAlignedSize(alignment, size)) == false) {
+		MemoryStandardFreeAligned(pointer);
+		pointer = NULL;
 	}
 	return pointer;
 }
@@ -229,8 +239,9 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	if (pointer != NULL) {
-		trackAllocation(pointer, size);
+	if (pointer != NULL && trackAllocation(pointer, size) == false) {
+		MemoryStandardFree(pointer);
+		pointer = NULL;
 	}
 	return pointer;
 }
-- 
2.43.0


From 68047f013167ae25fd21016e18a5a9d4d114e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:09 +0000
Subject: [PATCH 73/82] fix: cache without memory does not abort debug builds

The caller is told with NULL that the cache could not be created.
---
 cache.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cache.c b/cache.c
index f23dac4..cd9239e 100644
--- a/cache.c
+++ b/cache.c
@@ -415,9 +415,8 @@ fiftyoneDegreesCache* fiftyoneDegreesCacheCreate(
 		cacheInit(cache);
 	}
 	// Check the cache if in debug mode.
-	assert(cache != NULL);
 #ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-	assert(cacheValidate(cache));
+	assert(cache == NULL || cacheValidate(cache));
 #endif
 
 	return cache;
-- 
2.43.0


From 45acb3804b6887fb623f700977c4bbf5b2f520e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:01 +0000
Subject: [PATCH 74/82] fix: refuse a collection that starts beyond the
 position a header can hold

---
 collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collection.c b/collection.c
index 07e0782..7c0c004 100644
--- a/collection.c
+++ b/collection.c
@@ -877,6 +877,7 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	// Get the size or count of the data structure in bytes.
 	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1 &&
 		(position = ftell(file)) > 0 &&
+		(unsigned long)position <= UINT32_MAX &&
 		setHeaderSize(&header, sizeOrCount, elementSize, isCount)) {
 		header.startPosition = (uint32_t)position;
 	}
-- 
2.43.0


From f004d1084c7a4740ff5a609da9c319707055e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:18 +0000
Subject: [PATCH 75/82] fix: refuse a data buffer larger than its size can
 record

---
 data.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data.c b/data.c
index a9fa701..6a8d3aa 100644
--- a/data.c
+++ b/data.c
@@ -44,7 +44,9 @@ void* fiftyoneDegreesDataMalloc(
 			// Allocate something so that the memory is known to be allocated.
 			bytesNeeded = 1;
 		}
-		data->ptr = (byte*)Malloc(bytesNeeded);
+		// More than the allocated field can record is never allocated.
+		data->ptr = bytesNeeded <= UINT32_MAX ?
+			(byte*)Malloc(bytesNeeded) : NULL;
 		if (data->ptr != NULL) {
 			data->allocated = (uint32_t)bytesNeeded;
 		}
-- 
2.43.0


From 615313f3e497d0695c67c44d02d321a73f61ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:27 +0000
Subject: [PATCH 76/82] fix: release the condition of a signal whose mutex
 cannot be created

---
 threading.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/threading.c b/threading.c
index f91e787..8465c65 100644
--- a/threading.c
+++ b/threading.c
@@ -98,8 +98,12 @@ fiftyoneDegreesSignal* fiftyoneDegreesSignalCreate() {
 	Signal *signal = (Signal*)Malloc(sizeof(Signal));
 	if (signal != NULL) {
 		signal->wait = false;
-		if (pthread_cond_init(&signal->cond, NULL) != 0 ||
-			pthread_mutex_init(&signal->mutex, NULL) != 0) {
+		if (pthread_cond_init(&signal->cond, NULL) != 0) {
+			Free(signal);
+			signal = NULL;
+		}
+		else if (pthread_mutex_init(&signal->mutex, NULL) != 0) {
+			pthread_cond_destroy(&signal->cond);
 			Free(signal);
 			signal = NULL;
 		}
-- 
2.43.0


From acfdfa8cb23d230ad8a67aa7ede9dfff8478b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:38 +0000
Subject: [PATCH 77/82] fix: release a string of the data when it cannot be
 copied

---
 EngineBase.cpp            |  8 +++++++-
 EntityMetaDataBuilder.hpp | 10 +++++++++-
 MetaData.cpp              |  8 +++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/EngineBase.cpp b/EngineBase.cpp
index 6bf5e11..1a4d1b6 100644
--- a/EngineBase.cpp
+++ b/EngineBase.cpp
@@ -159,7 +159,13 @@ void EngineBase::appendString(
 	DataReset(&item.data);
 	String *string = StringGet(strings, offset, &item, exception);
 	if (string != NULL && EXCEPTION_OKAY) {
-		stream << STRING(string);
+		try {
+			stream << STRING(string);
+		}
+		catch (...) {
+			COLLECTION_RELEASE(strings, &item);
+			throw;
+		}
 		COLLECTION_RELEASE(strings, &item);
 	}
 	EXCEPTION_THROW;
diff --git a/EntityMetaDataBuilder.hpp b/EntityMetaDataBuilder.hpp
index 4a13b66..43063e2 100644
--- a/EntityMetaDataBuilder.hpp
+++ b/EntityMetaDataBuilder.hpp
@@ -69,7 +69,15 @@ namespace FiftyoneDegrees {
 					exception);
 				FIFTYONE_DEGREES_EXCEPTION_THROW;
 					if (str != nullptr) {
-						result.append(&str->value);
+						try {
+							result.append(&str->value);
+						}
+						catch (...) {
+							FIFTYONE_DEGREES_COLLECTION_RELEASE(
+								stringsCollection,
+								&item);
+							throw;
+						}
 					}
 					FIFTYONE_DEGREES_COLLECTION_RELEASE(
 						stringsCollection,
diff --git a/MetaData.cpp b/MetaData.cpp
index 81cf0e6..5a98886 100644
--- a/MetaData.cpp
+++ b/MetaData.cpp
@@ -48,7 +48,13 @@ string MetaData::getString(
 		exception);
 	EXCEPTION_THROW;
 	if (str != nullptr) {
-		result.append(&str->value);
+		try {
+			result.append(&str->value);
+		}
+		catch (...) {
+			COLLECTION_RELEASE(strings, &item);
+			throw;
+		}
 	}
 	COLLECTION_RELEASE(strings, &item);
 	return result;
-- 
2.43.0


From 7d85ae9cf794deb59b00000e063ec2948fca7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:38 +0000
Subject: [PATCH 78/82] fix: free the text of an exception that there is no
 memory to copy

---
 Exceptions.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index d3b8adc..578ed6f 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -25,26 +25,35 @@
 
 using namespace FiftyoneDegrees::Common;
 
+/**
+ * Appends the text to the message and frees it, also where there is no memory
+ * to append it.
+ */
+static void appendAndFree(string &message, const char *text) {
+	if (text != nullptr) {
+		try {
+			message.append(text);
+		}
+		catch (...) {
+			Free((void*)text);
+			throw;
+		}
+		Free((void*)text);
+	}
+}
+
 StatusCodeException::StatusCodeException() : exception(),
 	statusCode(FIFTYONE_DEGREES_STATUS_NOT_SET) {}
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code) : exception(), statusCode(code) {
-	const char *statusMessage = StatusGetMessage(code, nullptr);
-	if (statusMessage != nullptr) {
-		message.append(statusMessage);
-		Free((void*)statusMessage);
-	}
+	appendAndFree(message, StatusGetMessage(code, nullptr));
 }
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code,
 	const char *fileName) : exception(), statusCode(code) {
-	const char *statusMessage = StatusGetMessage(code, fileName);
-	if (statusMessage != nullptr) {
-		message.append(statusMessage);
-		Free((void*)statusMessage);
-	}
+	appendAndFree(message, StatusGetMessage(code, fileName));
 }
 StatusCodeException::~StatusCodeException() {}
 
@@ -58,11 +67,7 @@ fiftyoneDegreesStatusCode StatusCodeException::getCode() const noexcept {
 
 FatalException::FatalException(
 	fiftyoneDegreesException *exception) : StatusCodeException() {
-	const char *exceptionMessage = ExceptionGetMessage(exception);
-	if (exceptionMessage != nullptr) {
-		message.append(exceptionMessage);
-		Free((void*)exceptionMessage);
-	}
+	appendAndFree(message, ExceptionGetMessage(exception));
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
 	statusCode = exception->status;
 #endif
-- 
2.43.0


From 46111309e4db93a58faf40401621f725fe680255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:38 +0000
Subject: [PATCH 79/82] fix: setting the temporary directories without memory
 left the freed ones in use

---
 ConfigBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ConfigBase.cpp b/ConfigBase.cpp
index eea187a..f05ab70 100644
--- a/ConfigBase.cpp
+++ b/ConfigBase.cpp
@@ -48,7 +48,9 @@ void ConfigBase::setReuseTempFile(bool reuse) {
 
 void ConfigBase::setTempDirectories(
 	vector<string> newTempDirs) {
-	this->tempDirs = newTempDirs;
+	// Not assigned, as that could fail having changed the strings which the
+	// underlying configuration still refers to.
+	this->tempDirs.swap(newTempDirs);
 	mapTempDirectories();
 }
 
-- 
2.43.0


From 14def945aa28629988bd0b625e1486da6fc0ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:24 +0000
Subject: [PATCH 80/82] fix: running out of memory shortened the value of a
 property

---
 ResultsBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ResultsBase.cpp b/ResultsBase.cpp
index 5e07802..d2c8add 100644
--- a/ResultsBase.cpp
+++ b/ResultsBase.cpp
@@ -86,6 +86,8 @@ FiftyoneDegrees::Common::Value<string> ResultsBase::getValueAsString(int require
 		getValuesInternal(requiredPropertyIndex, values);
 		if (values.size() > 1) {
 			stringstream stream;
+			// Throw if there is no memory for all of the values.
+			stream.exceptions(std::ios::badbit);
 			for (vector<string>::iterator it = values.begin();
 				it != values.end();
 				it++) {
-- 
2.43.0


From 1eb721f5862c7cdf5c32f16b017fd60f7da6e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:24 +0000
Subject: [PATCH 81/82] fix: running out of memory shortened the data update
 URL

---
 EngineBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EngineBase.cpp b/EngineBase.cpp
index 1a4d1b6..a6dad32 100644
--- a/EngineBase.cpp
+++ b/EngineBase.cpp
@@ -122,6 +122,8 @@ void EngineBase::setDataUpdateUrl(const string &newUpdateUrl) {
 
 string EngineBase::getDataUpdateUrl() const {
 	stringstream stream;
+	// Throw if there is no memory for all of the URL.
+	stream.exceptions(std::ios::badbit);
 	if (updateUrl.empty() == false) {
 		stream << updateUrl;
 	}
-- 
2.43.0


From 1b133564221a2e7e4435dbc5addb9048346a1b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:56 +0000
Subject: [PATCH 82/82] fix: compare files without relying on their positions
 being told

---
 file.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/file.c b/file.c
index 6d31c25..4eb0991 100644
--- a/file.c
+++ b/file.c
@@ -261,7 +261,7 @@ static bool compareFiles(
 	long bytesToCompare) {
 	StatusCode status;
 	FILE *file, *otherFile;
-	long size, read;
+	long size, read, position = 0;
 	byte buffer[1024], otherBuffer[1024];
 
 	// Compare the sizes.
@@ -280,14 +280,14 @@ static bool compareFiles(
 		return false;
 	}
 
-	while (ftell(file) < size &&
-		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
+	while (position < size &&
+		(bytesToCompare < 0 || position < bytesToCompare)) {
 		read = (long)sizeof(buffer);
-		if (bytesToCompare >= 0 && bytesToCompare - ftell(file) < read) {
-			read = bytesToCompare - ftell(file);
+		if (bytesToCompare >= 0 && bytesToCompare - position < read) {
+			read = bytesToCompare - position;
 		}
-		if (size - ftell(file) < read) {
-			read = size - ftell(file);
+		if (size - position < read) {
+			read = size - position;
 		}
 
 		if (fread(buffer, read, 1, file) != 1) {
@@ -305,6 +305,7 @@ static bool compareFiles(
 			fclose(otherFile);
 			return false;
 		}
+		position += read;
 	}
 	fclose(file);
 	fclose(otherFile);
-- 
2.43.0

