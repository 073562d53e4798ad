From 0ea5875f0f2bacabbe3a16176fd90094483028f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 01/47] fix: Timer waits too long after running a slow callback

The wait for the next queued callback was computed from a time read
before the expired callbacks ran, so a callback which became due
meanwhile was delayed by their execution time once more.
---
 src/misc/timer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 14a207b..473d1fe 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -89,6 +89,7 @@ void Timer::run()
     epicsGuard<epicsMutex> G(mutex);
 
     epicsTime now(epicsTime::getCurrent());
+    bool stale = false; // 'now' was read before the last job ran
 
     while(alive) {
         double waitfor;
@@ -121,6 +122,13 @@ void Timer::run()
             }
 
             // don't update 'now' until all expired jobs run
+            stale = true;
+
+        } else if(stale) {
+            // expired jobs have run since 'now' was read.
+            // re-evaluate with the current time before waiting.
+            now = epicsTime::getCurrent();
+            stale = false;
 
         } else {
             waiting = true;
-- 
2.43.0


From bbe938c407edbb30b44c3a5bd948ad80b8f1fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 02/47] fix: Timer callback re-scheduled while it is running

A periodic callback which was scheduled again while executing was queued
twice (assertion failure), or re-queued although that new request had
been successfully cancelled.
---
 src/misc/timer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 473d1fe..ea27265 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -70,6 +70,7 @@ bool Timer::cancel(TimerCallbackPtr const &timerCallback)
         TimerCallbackPtr& cur = *it;
         if(cur.get() == timerCallback.get()) {
             cur->onList = false;
+            cur->period = 0.0; // if re-scheduled while running, do not re-queue
             queue.erase(it); // invalidates cur and it
             return true;
         }
@@ -116,7 +117,8 @@ void Timer::run()
                 work->callback();
             }
 
-            if(work->period > 0.0 && alive) {
+            // not if re-scheduled while callback() was running
+            if(work->period > 0.0 && alive && !work->onList) {
                 work->timeToRun += work->period;
                 addElement(work);
             }
-- 
2.43.0


From d7d4ed170c5e69ce9b7893a87e974896c248a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 03/47] fix: Timer::close() racing cancel()

close() emptied the queue without holding the lock, and a concurrent
cancel() which returned true did not prevent timerStopped().
---
 src/misc/timer.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index ea27265..ad3aa58 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -61,10 +61,6 @@ bool Timer::cancel(TimerCallbackPtr const &timerCallback)
 {
     Lock xx(mutex);
     if(!timerCallback->onList) return false;
-    if(!alive) {
-        timerCallback->onList = false;
-        return true;
-    }
     for(queue_t::iterator it(queue.begin()), end(queue.end()); it != end; ++it)
     {
         TimerCallbackPtr& cur = *it;
@@ -149,22 +145,23 @@ Timer::~Timer() {
 }
 
 void Timer::close() {
+    queue_t temp;
     {
          Lock xx(mutex);
          if(!alive)
              return; // already closed
          alive = false;
+
+         // no longer scheduled.  cancel() no longer finds them.
+         temp.swap(queue);
+         for(queue_t::iterator it(temp.begin()), end(temp.end()); it != end; ++it)
+             (*it)->onList = false;
     }
     waitForWork.signal();
     thread.exitWait();
 
-    queue_t temp;
-    temp.swap(queue);
-
     for(;!temp.empty(); temp.pop_front()) {
-        TimerCallbackPtr& head = temp.front();
-        head->onList = false;
-        head->timerStopped();
+        temp.front()->timerStopped();
     }
 }
 
-- 
2.43.0


From 0b43413a07e7c54172d6ed249ca2048797dcfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 04/47] fix: RefMonitor::start() while stop() is in progress

start() cleared the flag which stop() relies on to end the previous worker,
which then kept running, and stop() never returned.
---
 src/misc/reftrack.cpp | 60 +++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 7c1a88a..de3a459 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -152,22 +152,48 @@ std::ostream& operator<<(std::ostream& strm, const RefSnapshot& snap)
     return strm;
 }
 
-struct RefMonitor::Impl : public epicsThreadRunable
+struct RefMonitor::Impl
 {
+    // Control of a single worker, which may outlive the stop() of this worker
+    // by the time taken to notice, and may be followed by another start().
+    struct Control {
+        epicsEvent wakeup;
+        bool done; // guarded by Impl::lock
+        Control() :done(false) {}
+    };
+
+    struct Worker : public epicsThreadRunable
+    {
+        Impl& impl;
+        const std::tr1::shared_ptr<Control> control;
+        epicsThread thread;
+        Worker(Impl& impl)
+            :impl(impl)
+            ,control(new Control)
+            ,thread(*this, "RefMonitor",
+                    epicsThreadGetStackSize(epicsThreadStackBig),
+                    epicsThreadPriorityMin)
+        {}
+        virtual ~Worker() {}
+
+        virtual void run() {
+            // *this may be destroyed by a stop() from show()
+            std::tr1::shared_ptr<Control> C(control);
+            impl.run(*C);
+        }
+    };
+
     RefMonitor& owner;
-    epics::auto_ptr<epicsThread> worker;
+    epics::auto_ptr<Worker> worker;
     epicsMutex lock;
-    epicsEvent wakeup;
     RefSnapshot prev;
-    bool done;
     double period;
-    Impl(RefMonitor* owner) :owner(*owner), done(false), period(10.0) {}
-    virtual ~Impl() {}
+    Impl(RefMonitor* owner) :owner(*owner), period(10.0) {}
 
-    virtual void run()
+    void run(Control& control)
     {
         Guard G(lock);
-        while(!done) {
+        while(!control.done) {
             RefSnapshot current, P;
             P = prev; // copy
             {
@@ -182,7 +208,7 @@ struct RefMonitor::Impl : public epicsThreadRunable
 
             {
                 UnGuard U(G);
-                wakeup.wait(period);
+                control.wakeup.wait(period);
             }
         }
     }
@@ -202,27 +228,23 @@ void RefMonitor::start(double period)
     Guard G(impl->lock);
     if(impl->worker.get()) return;
 
-    impl->done = false;
     impl->period = period;
-    impl->worker.reset(new epicsThread(*impl,
-                                       "RefMonitor",
-                                       epicsThreadGetStackSize(epicsThreadStackBig),
-                                       epicsThreadPriorityMin));
-    impl->worker->start();
+    impl->worker.reset(new Impl::Worker(*impl));
+    impl->worker->thread.start();
 }
 
 void RefMonitor::stop()
 {
-    epics::auto_ptr<epicsThread> W;
+    epics::auto_ptr<Impl::Worker> W;
     {
         Guard G(impl->lock);
         if(!impl->worker.get()) return;
         epics::swap(W, impl->worker);
-        impl->done = true;
+        W->control->done = true;
     }
 
-    impl->wakeup.signal();
-    W->exitWait();
+    W->control->wakeup.signal();
+    W->thread.exitWait();
 
     W.reset();
 }
-- 
2.43.0


From 7d7fc0de481bdbefbe01d95bfac4d1cbd49a9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 05/47] fix: RefSnapshot reads unregistered counters

---
 src/misc/reftrack.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index de3a459..949ace9 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -93,17 +93,14 @@ RefSnapshot::operator[](const std::string& name) const
 
 void RefSnapshot::update()
 {
-    refgbl_t::counters_t counters;
-    {
-        refgbl_setup();
-        Guard G(refgbl->lock);
-        counters = refgbl->counters; // copy
-    }
-
     counts.clear();
 
-    for(refgbl_t::counters_t::const_iterator it=counters.begin(),
-                                            end=counters.end();
+    refgbl_setup();
+    // counters may be destroyed once unregistered, so only read them with lock held
+    Guard G(refgbl->lock);
+
+    for(refgbl_t::counters_t::const_iterator it=refgbl->counters.begin(),
+                                            end=refgbl->counters.end();
         it!=end; ++it)
     {
         size_t cnt = atomic::get(*it->second);
-- 
2.43.0


From dbdf099e92f349ff0bcaa7595f17cb389796f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 06/47] fix: compare() of types ignores the bounds of strings
 and arrays

---
 src/factory/Compare.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 1e53608..0494e37 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -69,14 +69,21 @@ bool compare(const Scalar& a, const Scalar& b)
 {
     if(&a==&b)
         return true;
-    return a.getScalarType()==b.getScalarType();
+    if(a.getScalarType()!=b.getScalarType())
+        return false;
+    // only differs for (bounded) strings
+    const BoundedString *A=dynamic_cast<const BoundedString*>(&a),
+                        *B=dynamic_cast<const BoundedString*>(&b);
+    return (A ? A->getMaximumLength() : 0)==(B ? B->getMaximumLength() : 0);
 }
 
 bool compare(const ScalarArray& a, const ScalarArray& b)
 {
     if(&a==&b)
         return true;
-    return a.getElementType()==b.getElementType();
+    return a.getElementType()==b.getElementType()
+            && a.getArraySizeType()==b.getArraySizeType()
+            && a.getMaximumCapacity()==b.getMaximumCapacity();
 }
 
 bool compare(const Structure& a, const Structure& b)
-- 
2.43.0


From f4ce3b3849b713fd8cd3af4ca0afc2a84b4e9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 07/47] fix: type cached with the hash of a truncated key when
 out of memory

---
 src/factory/FieldCreateFactory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 6c5f9b0..9dba36d 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -39,6 +39,8 @@ size_t Field::num_instances;
 struct Field::Helper {
     static unsigned hash(Field *fld) {
         std::ostringstream key;
+        // throw instead of silently truncating when out of memory
+        key.exceptions(std::ios_base::badbit);
         // hash the output of operator<<()
         // not efficient, but stable within this process.
         key<<(*fld);
-- 
2.43.0


From 7780b764c7336bb4cd9f7c72bf6a4ae2bb8c51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 08/47] fix: serializeSubstring() writes the size but none of
 the characters

---
 src/misc/serializeHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..ef518df 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -86,7 +86,7 @@ namespace epics {
             if(offset+count>value.length()) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count<=0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From acdfa38dbc5bd51538ba9879b7087512438a89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 09/47] fix: partial serialization of structure and union
 arrays reads past the end

---
 src/factory/PVStructureArray.cpp | 7 +++----
 src/factory/PVUnionArray.cpp     | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 66577b5..ff5a718 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -195,12 +195,11 @@ void PVStructureArray::serialize(ByteBuffer *pbuffer,
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
-    else if (count != array->getMaximumCapacity())
+    else if (temp.size() != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-    for(size_t i = 0; i<count; i++) {
-        if(pbuffer->getRemaining()<1)
-            pflusher->flushSerializeBuffer();
+    for(size_t i = 0; i<temp.size(); i++) {
+        pflusher->ensureBuffer(1);
 
         if(temp[i].get()==NULL) {
             pbuffer->putByte(0);
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 151bc5b..fa8ef43 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -194,12 +194,11 @@ void PVUnionArray::serialize(ByteBuffer *pbuffer,
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
-    else if (count != array->getMaximumCapacity())
+    else if (temp.size() != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-    for(size_t i = 0; i<count; i++) {
-        if(pbuffer->getRemaining()<1)
-            pflusher->flushSerializeBuffer();
+    for(size_t i = 0; i<temp.size(); i++) {
+        pflusher->ensureBuffer(1);
 
         if(temp[i].get()==NULL) {
             pbuffer->putByte(0);
-- 
2.43.0


From 0e523ae720e6069d9ef74682783657cd9f5669e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 10/47] fix: BitSet needs the whole set in one buffer, and is
 left inconsistent by incomplete data

---
 src/misc/bitSet.cpp | 54 ++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index d53aaeb..2758daa 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -325,40 +325,48 @@ namespace epics { namespace pvData {
             len++;
 
         SerializeHelper::writeSize(len, buffer, flusher);
-        flusher->ensureBuffer(len);
 
         n = len / 8;
-        for (uint32 i = 0; i < n; i++)
+        for (uint32 i = 0; i < n; i++) {
+            flusher->ensureBuffer(BYTES_PER_WORD);
             buffer->putLong(words[i]);
+        }
 
-        if (n < words.size())
+        if (n < words.size()) {
+            flusher->ensureBuffer(BYTES_PER_WORD);
             for (uint64 x = words[words.size() - 1]; x != 0; x >>= 8)
                 buffer->putByte((int8) (x & 0xff));
+        }
     }
 
     void BitSet::deserialize(ByteBuffer* buffer, DeserializableControl* control) {
 
-        uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
-
-        size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
-        words.resize(wordsInUse);
-
-        if (wordsInUse == 0)
-            return;
-
-        control->ensureData(bytes);
-
-        uint32 i = 0;
-        uint32 longs = bytes / 8;
-        while (i < longs)
-            words[i++] = buffer->getLong();
-
-        for (uint32 j = i; j < wordsInUse; j++)
-            words[j] = 0;
-
-        for (uint32 remaining = (bytes - longs * 8), j = 0; j < remaining; j++)
-            words[i] |= (buffer->getByte() & 0xffLL) << (8 * j);
+        size_t bytes = SerializeHelper::readSize(buffer, control);
+        if (bytes == (size_t)-1) // null
+            bytes = 0;
+
+        // The set is left empty if the data turns out to be incomplete.
+        // The allocated size does not exceed the size of the data actually received.
+        words_t next;
+        next.swap(words);
+        next.clear();
+
+        while (bytes) {
+            size_t n = bytes < BYTES_PER_WORD ? bytes : BYTES_PER_WORD;
+            control->ensureData(n);
+
+            uint64 word = 0;
+            if (n == BYTES_PER_WORD)
+                word = buffer->getLong();
+            else
+                for (size_t j = 0; j < n; j++)
+                    word |= (buffer->getByte() & 0xffULL) << (8 * j);
+
+            next.push_back(word);
+            bytes -= n;
+        }
 
+        words.swap(next);
         recalculateWordsInUse(); // Sender shouldn't add extra zero bytes, but don't fail it it does
     }
 
-- 
2.43.0


From 908515fa896b18e003fb501bc0e269afd0a5bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 11/47] fix: PVUnion selection without a value after a failed
 select() or deserialize()

---
 src/factory/PVUnion.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index a52687b..3bd70cc 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -70,8 +70,8 @@ PVFieldPtr PVUnion::select(int32 index)
         throw std::invalid_argument("index out of bounds");
 
     FieldConstPtr field = unionPtr->getField(index);
-    selector = index;
     value = pvDataCreate->createPVField(field);
+    selector = index;
 
     return value;
 }
@@ -158,21 +158,27 @@ void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
     }
     else
     {
-        int32 previousSelector = selector;
-        selector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
-        if (selector != UNDEFINED_INDEX)
+        int32 index = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
+        if (index != UNDEFINED_INDEX)
         {
-            if (selector != previousSelector)
+            if (index < 0 || size_t(index) >= unionPtr->getNumberFields())
+                throw std::runtime_error("union selector out of bounds");
+
+            if (index != selector)
             {
-                FieldConstPtr field = unionPtr->getField(selector);
+                FieldConstPtr field = unionPtr->getField(index);
                 // try to reuse existing field instance
                 if (!value.get() || *value->getField() != *field)
                     value = pvDataCreate->createPVField(field);
+                selector = index;
             }
             value->deserialize(pbuffer, pcontrol);
         }
         else
+        {
+            selector = UNDEFINED_INDEX;
             value.reset();
+        }
     }
 }
 
-- 
2.43.0


From b6c03683b0cea3f7abad7219eeea99d1b5674b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 12/47] fix: Status::deserialize() accepts any type code

---
 src/misc/status.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..10b5cbd 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -74,6 +74,8 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     }
     else
     {
+        if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+            throw std::runtime_error("invalid status type");
         m_statusType = (StatusType)typeCode;
         m_message = SerializeHelper::deserializeString(buffer, flusher);
         m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
-- 
2.43.0


From 5b9f43287dc99f419204c8e606cb1cb7707e51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 13/47] fix: data received through directDeserialize() is
 dropped

---
 src/factory/PVDataCreateFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6826e62..3ab7692 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,6 +330,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     if (!pbuffer->reverse<T>())
         if (pcontrol->directDeserialize(pbuffer, (char*)cur, size, sizeof(T)))
         {
+        value = freeze(nextvalue);
         // inform about the change?
         PVField::postPut();
         return;
-- 
2.43.0


From 4ef0d206d843c25597b652caa0eed8c991868d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 14/47] fix: element type of structure and union arrays is not
 checked when decoding

---
 src/factory/FieldCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 9dba36d..d20598b 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1563,7 +1563,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.structureArray;
-            StructureConstPtr elementStructure = std::tr1::static_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            StructureConstPtr elementStructure = std::tr1::dynamic_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            if (!elementStructure)
+                throw std::invalid_argument("element type of a structure array is not a structure");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new StructureArray(elementStructure));
             Helper::cache(this, sp);
@@ -1576,7 +1578,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.unionArray;
-            UnionConstPtr elementUnion = std::tr1::static_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            UnionConstPtr elementUnion = std::tr1::dynamic_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            if (!elementUnion)
+                throw std::invalid_argument("element type of a union array is not a union");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new UnionArray(elementUnion));
             Helper::cache(this, sp);
-- 
2.43.0


From 769ef54cf0cef10ef49f38c4405133c590781bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 15/47] fix: OK status keeps the message of the previous one
 when decoded

---
 src/misc/status.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 10b5cbd..8757085 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -64,13 +64,10 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     int8 typeCode = buffer->getByte();
     if (typeCode == (int8)-1)
     {
-       // in most of the cases status will be OK, we statistically optimize
-       if (m_statusType != STATUSTYPE_OK)
-       {
-           m_statusType = STATUSTYPE_OK;
-           m_message.clear();
-           m_stackDump.clear();
-       }
+       // (a previous OK status may have come with a message)
+       m_statusType = STATUSTYPE_OK;
+       m_message.clear();
+       m_stackDump.clear();
     }
     else
     {
-- 
2.43.0


From 604a646c062906bdc84da5e66c892d5adbb5be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 16/47] fix: setLength() and setCapacity() of structure and
 union arrays lose the elements

setLength() took the buffer, but put nothing back when the length did
not change; setCapacity() reserved in a vector which then was dropped.
---
 src/factory/PVStructureArray.cpp | 22 +++++-----------------
 src/factory/PVUnionArray.cpp     | 23 ++++++-----------------
 2 files changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index ff5a718..6d22087 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -106,14 +106,8 @@ void PVStructureArray::setCapacity(size_t capacity)
 {
     if (this->isCapacityMutable()) {
         checkLength(capacity);
-        const_svector value;
-        swap(value);
-        if(value.capacity()<capacity) {
-            svector mvalue(thaw(value));
-            mvalue.reserve(capacity);
-            value = freeze(mvalue);
-        }
-        swap(value);
+        if(value.capacity()<capacity)
+            value.reserve(capacity);
     }
     else
         THROW_EXCEPTION2(std::logic_error, "capacity immutable");
@@ -123,22 +117,16 @@ void PVStructureArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
 
     if (length == value.size())
         return;
 
     checkLength(length);
 
-    if (length < value.size()) {
+    if (length < value.size())
         value.slice(0, length);
-    } else {
-        svector mvalue(thaw(value));
-        mvalue.resize(length);
-        value = freeze(mvalue);
-    }
-    swap(value);
+    else
+        value.resize(length);
 }
 
 void PVStructureArray::swap(const_svector &other)
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index fa8ef43..da3f1c7 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -106,14 +106,8 @@ void PVUnionArray::setCapacity(size_t capacity)
 {
     if(this->isCapacityMutable()) {
         checkLength(capacity);
-        const_svector value;
-        swap(value);
-        if(value.capacity()<capacity) {
-            svector mvalue(thaw(value));
-            mvalue.reserve(capacity);
-            value = freeze(mvalue);
-        }
-        swap(value);
+        if(value.capacity()<capacity)
+            value.reserve(capacity);
     }
     else
         THROW_EXCEPTION2(std::logic_error, "capacity immutable");
@@ -123,21 +117,16 @@ void PVUnionArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
+
     if (length == value.size())
         return;
 
     checkLength(length);
 
-    if (length < value.size()) {
+    if (length < value.size())
         value.slice(0, length);
-    } else {
-        svector mvalue(thaw(value));
-        mvalue.resize(length);
-        value = freeze(mvalue);
-    }
-    swap(value);
+    else
+        value.resize(length);
 }
 
 void PVUnionArray::swap(const_svector &other)
-- 
2.43.0


From 1fd53c8b04a786a0f05f7911edff9ae6a3b5dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 17/47] fix: debug::shared_ptr::swap() loses a reference when
 both refer to one object

---
 src/misc/debugPtr.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 3cd3210..c361b57 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -73,17 +73,20 @@ void shared_ptr_base::track_clear()
 
 void shared_ptr_base::swap(shared_ptr_base &o)
 {
-    // we cheat a bit here to avoid lock order, and to lock only twice
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(&o);
-        track->refs.erase(this);
-    }
-    track.swap(o.track);
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(this);
-        track->refs.erase(&o);
+    // both referring to the same object (or to none) remain registered
+    if(track!=o.track) {
+        // we cheat a bit here to avoid lock order, and to lock only twice
+        if(track) {
+            Guard G(track->mutex);
+            track->refs.insert(&o);
+            track->refs.erase(this);
+        }
+        track.swap(o.track);
+        if(track) {
+            Guard G(track->mutex);
+            track->refs.insert(this);
+            track->refs.erase(&o);
+        }
     }
     //TODO: keep original somehow???
     snap_stack();
-- 
2.43.0


From cb5c61015585c950925caba300e5ae9d11123559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 18/47] fix: debug::shared_ptr counts null pointers from casts
 and weak_ptr::lock() as references

---
 src/misc/pv/debugPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 3ce0771..df3f6c9 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -126,7 +126,7 @@ class shared_ptr : public shared_ptr_base {
 
     // ctor for casts
     shared_ptr(const real_type& r, const ptr_base::track_t& t)
-        :shared_ptr_base(t), real(r)
+        :shared_ptr_base(r ? t : ptr_base::track_t()), real(r)
     {track_new();}
 public:
     typedef typename real_type::element_type element_type;
-- 
2.43.0


From 524bb3b229adf45319b97f8975c77e2f13f276f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 19/47] fix: debug::shared_ptr from a unique_ptr is not tracked

Nor did shared_from_this() work, and the deleter of the unique_ptr was ignored.
---
 src/misc/pv/debugPtr.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index df3f6c9..b1f1df0 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -153,7 +153,12 @@ public:
 
     // takeover from unique_ptr
     template<typename A>
-    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real(a.release()) {track_new();}
+    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real() {
+        A* ptr = a.get();
+        real = real_type(std::move(a));
+        track_new(ptr);
+        do_enable_shared_from_this(*this, ptr);
+    }
 
     ~shared_ptr() {}
 
-- 
2.43.0


From 1412c500dd608f2a0cd724cec5c4071643ffd5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 20/47] fix: debug::shared_ptr of a null pointer throws with
 enable_shared_from_this

---
 src/misc/pv/debugPtr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index b1f1df0..8fa30a2 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -316,6 +316,8 @@ do_enable_shared_from_this(const shared_ptr<Store>& dest,
                             enable_shared_from_this<Actual>* self
                             )
 {
+    if(!self)
+        return;
     shared_ptr<Actual> actual(dynamic_pointer_cast<Actual>(dest));
     if(!actual)
         throw std::logic_error("epics::debug::enabled_shared_from_this fails");
-- 
2.43.0


From 4a42a407b8c7973c05c920af65376a6e69110d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 21/47] fix: debug::shared_ptr::owner_before() does not compile

---
 src/misc/pv/debugPtr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 8fa30a2..250600e 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -208,9 +208,9 @@ public:
     bool operator<(const shared_ptr<T>& o) const { return real<o.real; }
 
     template<typename A>
-    bool owner_before(const shared_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const shared_ptr<A>& o) const { return real.owner_before(o.real); }
     template<typename A>
-    bool owner_before(const weak_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const weak_ptr<A>& o) const { return real.owner_before(o.real); }
 
     template<typename TO, typename FROM>
     friend
-- 
2.43.0


From 667dd2773a4a3bb394e992dc873e877a3c278ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 22/47] fix: thaw() of a shared sliced vector points outside of
 its copy

---
 src/misc/pv/sharedVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..20be6f6 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -160,6 +160,7 @@ namespace detail {
             ,m_total(O.m_total)
         {
             O.make_unique();
+            m_offset = O.m_offset; // a copy starts at offset zero
 #if __cplusplus >= 201103L
             m_sdata = std::move(std::tr1::const_pointer_cast<E>(O.m_sdata));
 #else
-- 
2.43.0


From 683a90e423e703b688c72938d615c1bcb2899046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 23/47] fix: shared_vector::at(size()) does not throw

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 20be6f6..4a37aba 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -624,7 +624,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From 6ae505ba3be1e37cea46e805575b0538f5059e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 24/47] fix: elements of a shared_vector are destroyed twice
 when out of memory

g++ 13 destroys the elements of a new[] expression given to the constructor
of the base class again when that constructor throws.
---
 src/misc/pv/sharedVector.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 4a37aba..7ebd14b 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -309,6 +309,12 @@ public:
     // allow specialization for all E to be friends
     template<typename E1, class Enable1> friend class shared_vector;
 
+private:
+    // Not an argument of the base class constructor as g++ would then destroy
+    // the elements a second time if that constructor throws std::bad_alloc.
+    static _E_non_const* _new_array(size_t c) { return new _E_non_const[c]; }
+public:
+
     //! @brief Empty vector (not very interesting)
 #if __cplusplus>=201103L
     constexpr shared_vector() noexcept :base_t() {}
@@ -319,7 +325,7 @@ public:
 #if __cplusplus>=201103L
     template<typename A>
     shared_vector(std::initializer_list<A> L)
-        :base_t(new _E_non_const[L.size()], 0, L.size())
+        :base_t(_new_array(L.size()), 0, L.size())
     {
         _E_non_const *raw = const_cast<_E_non_const*>(data());
         std::copy(L.begin(), L.end(), raw);
@@ -328,12 +334,12 @@ public:
 
     //! @brief Allocate (with new[]) a new vector of size c
     explicit shared_vector(size_t c)
-        :base_t(new _E_non_const[c], 0, c)
+        :base_t(_new_array(c), 0, c)
     {}
 
     //! @brief Allocate (with new[]) a new vector of size c and fill with value e
     shared_vector(size_t c, param_type e)
-        :base_t(new _E_non_const[c], 0, c)
+        :base_t(_new_array(c), 0, c)
     {
         std::fill_n((_E_non_const*)this->m_sdata.get(), this->m_count, e);
     }
-- 
2.43.0


From ba67ce961fbbf9c33f5ee5dbe56fb26ab09817e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 25/47] fix: keep the line breaks which separate JSON tokens
 and end comments

---
 src/json/parsehelper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json/parsehelper.cpp b/src/json/parsehelper.cpp
index 9cc44c3..749324c 100644
--- a/src/json/parsehelper.cpp
+++ b/src/json/parsehelper.cpp
@@ -45,6 +45,11 @@ bool yajl_parse_helper(std::istream& src,
         }
 #endif
 
+        // getline() strips the line ending, which separates tokens
+        // and ends comments
+        if(!src.eof())
+            line.push_back('\n');
+
         yajl_status sts = yajl_parse(handle, (const unsigned char*)line.c_str(), line.size());
 
         switch(sts) {
-- 
2.43.0


From 51b967ed16b35b4c4cb14308330d68ea93cb046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 26/47] fix: refuse JSON values and maps for an array field
 outside of brackets

---
 src/json/parseinto.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 601fa4c..646e95a 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -25,8 +25,9 @@ struct context {
     struct frame {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
+        bool open; // array field between start_array() and end_array()
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
-            :fld(fld), assigned(assigned)
+            :fld(fld), assigned(assigned), open(false)
         {}
     };
 
@@ -67,6 +68,9 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         // structure at the top of the stack
 
     } else if(type==pvd::scalarArray) {
+        if(!back.open)
+            throw std::runtime_error("Can't assign value to array");
+
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
         pvd::shared_vector<const void> carr;
@@ -184,6 +188,9 @@ int jtree_start_map(void * ctx)
             // will fill in
         } else if(type==pvd::structureArray) {
             // starting new element in structure array
+            if(!back.open)
+                throw std::runtime_error("Can't map array");
+
             pvd::PVStructureArray* sarr(static_cast<pvd::PVStructureArray*>(back.fld.get()));
 
             pvd::PVStructurePtr elem(pvd::getPVDataCreate()->createPVStructure(sarr->getStructureArray()->getStructure()));
@@ -251,10 +258,13 @@ int jtree_start_array(void * ctx)
 {
     TRY {
         assert(!self->stack.empty());
-        pvd::PVFieldPtr& back(self->stack.back().fld);
-        pvd::Type type = back->getField()->getType();
+        context::frame& back = self->stack.back();
+        pvd::Type type = back.fld->getField()->getType();
         if(type!=pvd::structureArray && type!=pvd::scalarArray)
             throw std::runtime_error("Can't assign array");
+        if(back.open)
+            throw std::runtime_error("Can't assign nested array");
+        back.open = true;
 
         return 1;
     }CATCH()
-- 
2.43.0


From 052434bb1546c8fef82d28e3f9a2388dd0d53b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 27/47] fix: assign JSON array elements all at once, so that
 fixed size arrays can be parsed

---
 src/json/parseinto.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 646e95a..dddde5c 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -26,6 +26,7 @@ struct context {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
         bool open; // array field between start_array() and end_array()
+        pvd::shared_vector<const void> carr; // scalar array elements while open
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
             :fld(fld), assigned(assigned), open(false)
         {}
@@ -73,15 +74,15 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
-        pvd::shared_vector<const void> carr;
-        fld->getAs(carr);
+        pvd::shared_vector<const void>& carr(back.carr);
 
-        switch(carr.original_type())
+        switch(fld->getScalarArray()->getElementType())
         {
 #define CASE_STRING
 #define CASE_REAL_INT64
 #define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case epics::pvData::pv##PVACODE: { \
             pvd::shared_vector<const PVATYPE> arr(pvd::static_shared_vector_cast<const PVATYPE>(carr)); \
+            carr.clear(); \
             pvd::shared_vector<PVATYPE> tarr(pvd::thaw(arr)); \
             tarr.push_back(pvd::castUnsafe<PVATYPE>(val)); \
             carr = pvd::static_shared_vector_cast<const void>(pvd::freeze(tarr)); \
@@ -92,8 +93,6 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 #undef CASE_STRING
         }
 
-        fld->putFrom(carr);
-
         // leave array field at top of stack
 
     } else if(type==pvd::union_) {
@@ -264,6 +263,13 @@ int jtree_start_array(void * ctx)
             throw std::runtime_error("Can't assign array");
         if(back.open)
             throw std::runtime_error("Can't assign nested array");
+        if(type==pvd::scalarArray) {
+            pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
+            fld->getAs(back.carr);
+            // a fixed size array is replaced, otherwise append
+            if(fld->getArray()->getArraySizeType()==pvd::Array::fixed)
+                back.carr.slice(0, 0);
+        }
         back.open = true;
 
         return 1;
@@ -274,8 +280,12 @@ int jtree_end_array(void * ctx)
     TRY {
         assert(!self->stack.empty());
 
-        if(self->stack.back().assigned)
-            self->stack.back().assigned->set(self->stack.back().fld->getFieldOffset());
+        context::frame& back = self->stack.back();
+        if(back.fld->getField()->getType()==pvd::scalarArray)
+            static_cast<pvd::PVScalarArray*>(back.fld.get())->putFrom(back.carr);
+
+        if(back.assigned)
+            back.assigned->set(back.fld->getFieldOffset());
         self->stack.pop_back();
         return 1;
     }CATCH()
-- 
2.43.0


From b9279ab159ac71adee4f5daf11b5498f749c5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 28/47] fix: ValueBuilder leaks the field which an array
 replaces

---
 src/pv/valueBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index a12ee88..72b7ccf 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -218,6 +218,10 @@ void ValueBuilder::_add(const std::string& name, const shared_vector<const void>
 
     epics::auto_ptr<child> store(new child_scalar_array(V));
 
+    if(it!=children.end()) {
+        delete it->second;
+        children.erase(it);
+    }
     children[name] = store.get();
     store.release();
 }
-- 
2.43.0


From 1396e1f0d6864fe79d88a4377060cc2cb2ac1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 29/47] fix: PVRequestMapper aborts on unselected fields in
 Mask mode

---
 src/copy/pv/createRequest.h | 2 +-
 src/copy/requestmapper.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/copy/pv/createRequest.h b/src/copy/pv/createRequest.h
index c761d97..828795c 100644
--- a/src/copy/pv/createRequest.h
+++ b/src/copy/pv/createRequest.h
@@ -214,7 +214,7 @@ private:
         size_t to; // offset in destination Structure
         BitSet tomask,   // if !leaf these are the other bits in the destination mask to changed
                frommask; // if !leaf these are the other bits in the source mask to be copied
-        bool valid; // only true in (sparse) base -> requested mapping
+        bool valid; // only true for selected fields
         bool leaf; // not a (sub)Structure?
         Mapping() :valid(false) {}
         Mapping(size_t to, bool leaf) :to(to), valid(true), leaf(leaf) {}
diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6fd2fcd..a82b9d9 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -256,7 +256,7 @@ void PVRequestMapper::_map(const PVStructure& src, const BitSet& maskSrc,
         for(int32 i=scratch.nextSetBit(0), N=map.size(); i>=0 && i<N; i=scratch.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  In Mask mode both mappings can have holes
 
             } else if(M.leaf) {
                 // just copy
@@ -289,7 +289,7 @@ void PVRequestMapper::_mapMask(const BitSet& maskSrc,
         for(int32 i=maskSrc.nextSetBit(0), N=map.size(); i>=0 && i<N; i=maskSrc.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  In Mask mode both mappings can have holes
 
             } else {
                 maskDest.set(M.to);
-- 
2.43.0


From 86f37e8221ea4e1dcccc2a87228b2d094e305be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 30/47] fix: getStandardField() never recovers after a failed
 allocation

---
 src/factory/StandardField.cpp | 16 +++++++---------
 src/pv/standardField.h        |  1 -
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/factory/StandardField.cpp b/src/factory/StandardField.cpp
index 49b4c90..5aea138 100644
--- a/src/factory/StandardField.cpp
+++ b/src/factory/StandardField.cpp
@@ -265,18 +265,16 @@ StructureConstPtr StandardField::enumerated(string  const &properties)
 
 static StandardFieldPtr *stdFieldGbl;
 
-static epicsThreadOnceId stdFieldGblOnce = EPICS_THREAD_ONCE_INIT;
-
-void StandardField::once(void*)
-{
-    stdFieldGbl = new StandardFieldPtr;
-    stdFieldGbl->reset(new StandardField);
-}
-
 const StandardFieldPtr &StandardField::getStandardField()
 {
-    epicsThreadOnce(&stdFieldGblOnce, &StandardField::once, 0);
+    // not with epicsThreadOnce() as construction may throw, and is then tried again
+    static Mutex * const mutex = new Mutex;
+    Lock xx(*mutex);
 
+    if(!stdFieldGbl) {
+        StandardFieldPtr temp(new StandardField);
+        stdFieldGbl = new StandardFieldPtr(temp);
+    }
     return *stdFieldGbl;
 }
 
diff --git a/src/pv/standardField.h b/src/pv/standardField.h
index fe4a8ac..3dfd095 100644
--- a/src/pv/standardField.h
+++ b/src/pv/standardField.h
@@ -61,7 +61,6 @@ typedef std::tr1::shared_ptr<StandardField> StandardFieldPtr;
  * }
  */
 class epicsShareClass StandardField {
-    static void once(void*);
 public:
     /** 
      * getStandardField returns the singleton.
-- 
2.43.0


From 41dc0bd36145a2e58cfbb0e38e929e103fb5adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 31/47] fix: alarm name tables published half filled when an
 allocation fails

---
 src/property/alarm.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/property/alarm.cpp b/src/property/alarm.cpp
index b79bad7..74695c4 100644
--- a/src/property/alarm.cpp
+++ b/src/property/alarm.cpp
@@ -44,13 +44,14 @@ StringArrayPtr AlarmSeverityFunc::getSeverityNames()
     static Mutex mutex;
     Lock xx(mutex);
     if(severityNames.get()==NULL) {
-        severityNames = StringArrayPtr(new StringArray());
-        severityNames->reserve(severityCount);
-        severityNames->push_back("NONE");
-        severityNames->push_back("MINOR");
-        severityNames->push_back("MAJOR");
-        severityNames->push_back("INVALID");
-        severityNames->push_back("UNDEFINED");
+        StringArrayPtr names(new StringArray());
+        names->reserve(severityCount);
+        names->push_back("NONE");
+        names->push_back("MINOR");
+        names->push_back("MAJOR");
+        names->push_back("INVALID");
+        names->push_back("UNDEFINED");
+        severityNames = names;
     }
     return severityNames;
 }
@@ -92,16 +93,17 @@ StringArrayPtr AlarmStatusFunc::getStatusNames()
     static Mutex mutex;
     Lock xx(mutex);
     if(statusNames.get()==NULL) {
-        statusNames = StringArrayPtr(new StringArray());
-        statusNames->reserve(statusCount);
-        statusNames->push_back("NONE");
-        statusNames->push_back("DEVICE");
-        statusNames->push_back("DRIVER");
-        statusNames->push_back("RECORD");
-        statusNames->push_back("DB");
-        statusNames->push_back("CONF");
-        statusNames->push_back("UNDEFINED");
-        statusNames->push_back("CLIENT");
+        StringArrayPtr names(new StringArray());
+        names->reserve(statusCount);
+        names->push_back("NONE");
+        names->push_back("DEVICE");
+        names->push_back("DRIVER");
+        names->push_back("RECORD");
+        names->push_back("DB");
+        names->push_back("CONF");
+        names->push_back("UNDEFINED");
+        names->push_back("CLIENT");
+        statusNames = names;
     }
     return statusNames;
 }
-- 
2.43.0


From 360c78fa3fd69b4fcf7010c6c7361a5f91a59397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 32/47] fix: Convert::getString() returns truncated text when
 an allocation fails

---
 src/factory/Convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index af39b21..d0f6c0f 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -53,6 +53,8 @@ void Convert::getString(string *buf,PVField const *pvField,int /*indentLevel*/)
     std::ostringstream strm;
     pvField->dumpValue(strm);
     strm << std::endl;
+    if(!strm.good()) // an allocation failed
+        throw std::bad_alloc();
     strm.str().swap(*buf);
 }
 
-- 
2.43.0


From be3e972fd62afb0bbb073c39bc2cc4129390b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 33/47] fix: array elements lost when reuse() or append() runs
 out of memory

---
 src/factory/PVStructureArray.cpp | 24 +++++++++++++++++-------
 src/factory/PVUnionArray.cpp     | 24 +++++++++++++++++-------
 src/pv/pvData.h                  |  7 ++++++-
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 6d22087..7984e91 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -26,13 +26,23 @@ size_t PVStructureArray::append(size_t number)
     checkLength(value.size()+number);
 
     svector data(reuse());
-    data.resize(data.size()+number);
-
-    StructureConstPtr structure = structureArray->getStructure();
-
-    PVDataCreatePtr pvDataCreate = getPVDataCreate();
-    for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
-        *it = pvDataCreate->createPVStructure(structure);
+    const size_t oldLength = data.size();
+
+    try {
+        data.resize(oldLength+number);
+
+        StructureConstPtr structure = structureArray->getStructure();
+
+        PVDataCreatePtr pvDataCreate = getPVDataCreate();
+        for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
+            *it = pvDataCreate->createPVStructure(structure);
+    } catch(...) {
+        // put the existing elements back
+        data.slice(0, oldLength);
+        const_svector cdata(freeze(data));
+        swap(cdata);
+        throw;
+    }
 
     size_t newLength = data.size();
 
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index da3f1c7..702e9fd 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -26,13 +26,23 @@ size_t PVUnionArray::append(size_t number)
     checkLength(value.size()+number);
 
     svector data(reuse());
-    data.resize(data.size()+number);
-
-    UnionConstPtr punion = unionArray->getUnion();
-
-    PVDataCreatePtr pvDataCreate = getPVDataCreate();
-    for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
-        *it = pvDataCreate->createPVUnion(punion);
+    const size_t oldLength = data.size();
+
+    try {
+        data.resize(oldLength+number);
+
+        UnionConstPtr punion = unionArray->getUnion();
+
+        PVDataCreatePtr pvDataCreate = getPVDataCreate();
+        for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
+            *it = pvDataCreate->createPVUnion(punion);
+    } catch(...) {
+        // put the existing elements back
+        data.slice(0, oldLength);
+        const_svector cdata(freeze(data));
+        swap(cdata);
+        throw;
+    }
 
     size_t newLength = data.size();
 
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index a33fb0e..6c5d499 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -1156,7 +1156,12 @@ namespace detail {
         {
             const_svector result;
             this->swap(result);
-            return thaw(result);
+            try {
+                return thaw(result);
+            } catch(...) {
+                this->swap(result); // could not copy, so keep the data
+                throw;
+            }
         }
 
         EPICS_NOT_COPYABLE(PVVectorStorage)
-- 
2.43.0


From f1eb7df9dd917e5c2cd6c9553dbe63b3cbb7d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 34/47] fix: timer thread allocates to re-queue a periodic
 callback and ends if this fails

---
 src/misc/timer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index ad3aa58..211f11f 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -102,10 +102,12 @@ void Timer::run()
         } else if((waitfor = queue.front()->timeToRun - now) <= 0) {
             // execute first expired job
 
-            TimerCallbackPtr work;
-            work.swap(queue.front());
+            // keep the list element to re-queue without allocating
+            queue_t running;
+            running.splice(running.end(), queue, queue.begin());
+
+            TimerCallbackPtr work(running.front());
             work->onList = false;
-            queue.pop_front();
 
             {
                 epicsGuardRelease<epicsMutex> U(G);
@@ -116,7 +118,8 @@ void Timer::run()
             // not if re-scheduled while callback() was running
             if(work->period > 0.0 && alive && !work->onList) {
                 work->timeToRun += work->period;
-                addElement(work);
+                work->onList = true;
+                queue.merge(running, TimerCallback::IncreasingTime());
             }
 
             // don't update 'now' until all expired jobs run
-- 
2.43.0


From b3d31bfa3c72a75d3daad549afb0b3919e4ef26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 35/47] fix: FieldBuilder::add() left inconsistent by a failed
 allocation

---
 src/factory/FieldCreateFactory.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index d20598b..fa32441 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1021,7 +1021,13 @@ FieldBuilderPtr FieldBuilder::add(string const & name, FieldConstPtr const & fie
 {
     const Field* cur = findField(name, field->getType());
     if(!cur) {
-        fields.push_back(field); fieldNames.push_back(name);
+        fieldNames.push_back(name);
+        try {
+            fields.push_back(field);
+        } catch(...) {
+            fieldNames.pop_back(); // keep both the same size
+            throw;
+        }
     } else if(*cur!=*field) {
         THROW_EXCEPTION2(std::runtime_error, "duplicate field name w/ different type : "+name);
     } // else exact duplicate is silently ignored
-- 
2.43.0


From d7b3e512e5134dd91c5848459b261ef5075971c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 36/47] fix: ValueBuilder leaks or drops fields when an
 allocation fails

---
 src/pv/valueBuilder.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index 72b7ccf..e6b57f7 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -148,7 +148,14 @@ ValueBuilder::ValueBuilder(const PVStructure& clone) :parent(0)
 {
     StructureConstPtr ctype(clone.getStructure());
     id = ctype->getID();
-    child_struct::fillStruct(*this, clone);
+    try {
+        child_struct::fillStruct(*this, clone);
+    } catch(...) {
+        // our dtor will not run
+        for(children_t::const_iterator it=children.begin(), end=children.end(); it!=end; ++it)
+            delete it->second;
+        throw;
+    }
 }
 
 
@@ -202,10 +209,11 @@ void ValueBuilder::_add(const std::string& name, ScalarType stype, const void *V
 
     if(it!=children.end()) {
         delete it->second;
-        children.erase(it);
+        it->second = store.release();
+    } else {
+        children[name] = store.get();
+        store.release();
     }
-    children[name] = store.get();
-    store.release();
 }
 
 void ValueBuilder::_add(const std::string& name, const shared_vector<const void>& V)
@@ -220,10 +228,11 @@ void ValueBuilder::_add(const std::string& name, const shared_vector<const void>
 
     if(it!=children.end()) {
         delete it->second;
-        children.erase(it);
+        it->second = store.release();
+    } else {
+        children[name] = store.get();
+        store.release();
     }
-    children[name] = store.get();
-    store.release();
 }
 
 ValueBuilder& ValueBuilder::addNested(const std::string& name, Type type, const std::string &id)
-- 
2.43.0


From c069551aa53d1ad7cf79b53570d4c89c2b030014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 37/47] fix: Status::maximize() takes over half a status when
 an allocation fails

---
 src/misc/status.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 8757085..91ce6ad 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -36,9 +36,11 @@ Status::Status(StatusType type, string const & message, string const & stackDump
 void Status::maximize(const Status& o)
 {
     if(m_statusType < o.m_statusType) {
+        // copy first so that a failure changes nothing
+        string message(o.m_message), stackDump(o.m_stackDump);
         m_statusType = o.m_statusType;
-        m_message = o.m_message;
-        m_stackDump = o.m_stackDump;
+        m_message.swap(message);
+        m_stackDump.swap(stackDump);
     }
 }
 
-- 
2.43.0


From c8a9cab647f37eb5720881f918d9746738619f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 38/47] fix: shared_vector::push_back() keeps an extra element
 when copying it fails

---
 src/misc/pv/sharedVector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 7ebd14b..202c569 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -609,7 +609,12 @@ public:
     void push_back(param_type v)
     {
         _push_resize();
-        back() = v;
+        try {
+            back() = v;
+        } catch(...) {
+            pop_back();
+            throw;
+        }
     }
 
     void pop_back()
-- 
2.43.0


From b1a7b87c41ea6baa0ad19239f3dfd343a3f12a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 39/47] fix: clones copy their original and keep its type

createPVField(structure) made a structure around the fields of the
original, which then belonged to the clone. Clones of scalars and arrays
lost their bounds, clones of an empty union or array could not be made.
---
 src/factory/PVDataCreateFactory.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3ab7692..86bd604 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -517,9 +517,7 @@ PVFieldPtr PVDataCreate::createPVField(PVFieldPtr const & fieldToClone)
          {
              PVStructurePtr pvStructure
                    = static_pointer_cast<PVStructure>(fieldToClone);
-             StringArray const & fieldNames = pvStructure->getStructure()->getFieldNames();
-             PVFieldPtrArray const & pvFieldPtrArray = pvStructure->getPVFields();
-             return createPVStructure(fieldNames,pvFieldPtrArray);
+             return createPVStructure(pvStructure);
          }
      case structureArray:
          {
@@ -591,8 +589,7 @@ PVScalarPtr PVDataCreate::createPVScalar(ScalarType scalarType)
 
 PVScalarPtr PVDataCreate::createPVScalar(PVScalarPtr const & scalarToClone)
 {
-     ScalarType scalarType = scalarToClone->getScalar()->getScalarType();
-     PVScalarPtr pvScalar = createPVScalar(scalarType);
+     PVScalarPtr pvScalar = createPVScalar(scalarToClone->getScalar());
      pvScalar->copyUnchecked(*scalarToClone);
      return pvScalar;
 }
@@ -641,8 +638,10 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
         PVScalarArrayPtr const & arrayToClone)
 {
      PVScalarArrayPtr pvArray = createPVScalarArray(
-          arrayToClone->getScalarArray()->getElementType());
-     pvArray->assign(*arrayToClone.get());
+          arrayToClone->getScalarArray());
+     // a new fixed size array is empty until set
+     if(arrayToClone->getLength()>0)
+         pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
 
@@ -711,7 +710,9 @@ PVUnionPtr PVDataCreate::createPVUnion(PVUnionPtr const & unionToClone)
 {
     PVUnionPtr punion(new PVUnion(unionToClone->getUnion()));
     // set cloned value
-    punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
+    PVFieldPtr value(unionToClone->get());
+    if(value)
+        punion->set(unionToClone->getSelectedIndex(), createPVField(value));
     return punion;
 }
 
-- 
2.43.0


From 10113b88194bcbbcb89880f9a928e3bc6b2b1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 40/47] fix: pvSubArrayCopy refuses ranges outside the source

An offset beyond the end of the source, or a range whose end overflows,
was accepted and read or written out of bounds.
---
 src/factory/pvSubArrayCopy.cpp | 40 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 35b03ed..49b7fa2 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -19,6 +19,25 @@ using std::string;
 
 namespace epics { namespace pvData {
 
+// Check the range to copy. Returns the length the target needs.
+static size_t checkRange(
+    size_t fromLength,
+    size_t fromOffset,
+    size_t fromStride,
+    size_t toOffset,
+    size_t toStride,
+    size_t count)
+{
+    if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
+    size_t maxcount = 0;
+    if(fromOffset<fromLength) maxcount = (fromLength - fromOffset - 1)/fromStride + 1;
+    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    if(count>(((size_t)-1) - toOffset)/toStride) {
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
+    }
+    return toOffset + count*toStride;
+}
+
 template<typename T>
 void copy(
     PVValueArray<T> & pvFrom,
@@ -30,11 +49,8 @@ void copy(
     size_t count)
 {
     if(pvTo.isImmutable()) throw std::invalid_argument("pvSubArrayCopy: pvTo is immutable");
-    if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
-    size_t fromLength = pvFrom.getLength();
-    size_t maxcount = (fromLength -fromOffset + fromStride -1)/fromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
+    size_t newLength = checkRange(
+        pvFrom.getLength(),fromOffset,fromStride,toOffset,toStride,count);
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
     shared_vector<T> temp(capacity);
@@ -162,17 +178,14 @@ void copy(
     if(pvTo.isImmutable()) {
         throw std::logic_error("pvSubArrayCopy  pvTo is immutable");
     }
-    if(pvFromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     StructureArrayConstPtr pvFromStructure = pvFrom.getStructureArray();
     StructureArrayConstPtr toStructure = pvTo.getStructureArray();
     if(pvFromStructure->getStructure()!=toStructure->getStructure()) {
         throw std::invalid_argument(
             "pvSubArrayCopy structureArray pvTo and pvFrom have different structures");
     }
-    size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
+    size_t newLength = checkRange(
+        pvFrom.getLength(),pvFromOffset,pvFromStride,toOffset,toStride,count);
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
     shared_vector<PVStructurePtr> temp(capacity);
@@ -198,17 +211,14 @@ void copy(
     if(pvTo.isImmutable()) {
         throw std::logic_error("pvSubArrayCopy  pvTo is immutable");
     }
-    if(pvFromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     UnionArrayConstPtr pvFromUnion = pvFrom.getUnionArray();
     UnionArrayConstPtr toUnion = pvTo.getUnionArray();
     if(pvFromUnion->getUnion()!=toUnion->getUnion()) {
         throw std::invalid_argument(
             "pvSubArrayCopy unionArray pvTo and pvFrom have different unions");
     }
-    size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
+    size_t newLength = checkRange(
+        pvFrom.getLength(),pvFromOffset,pvFromStride,toOffset,toStride,count);
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
     shared_vector<PVUnionPtr> temp(capacity);
-- 
2.43.0


From 71ac6203769cafb71a69fee6a99c8459b0f08045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 41/47] fix: compare a variant union with one that has no value

---
 src/factory/Compare.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 0494e37..c3fa239 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -278,11 +278,13 @@ bool compareField(const PVUnion* left, const PVUnion* right)
 
     if (ls->isVariant())
     {
+        // the value of a variant union can be null
         const PVField::const_shared_pointer& lval = left->get();
-        if (lval.get() == 0)
-            return right->get().get() == 0;
+        const PVField::const_shared_pointer& rval = right->get();
+        if (!lval || !rval)
+            return !lval && !rval;
         else
-            return *(lval.get()) == *(right->get().get());
+            return *lval == *rval;
     }
     else
     {
-- 
2.43.0


From da882646dcffb279aa90f78a1f3e7b1f5a3085a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 42/47] fix: TimeStamp stays normalized and ordered

put(milliseconds) before the epoch and adding fractions of a second left
nanoseconds outside 0 to 999999999, comparisons of times more than 292
years apart overflowed.
---
 src/property/timeStamp.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..0f5bb58 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
@@ -90,10 +91,9 @@ int64 TimeStamp::diffInt(TimeStamp const & left,TimeStamp  const&right )
     int32 nl = left.nanoseconds;
     int64 sr = right.secondsPastEpoch;
     int32 nr = right.nanoseconds;
-    int64 sdiff = sl - sr;
-    sdiff *= nanoSecPerSec;
-    sdiff += nl - nr;
-    return sdiff;
+    // only the sign matters, the difference in nanoseconds could overflow
+    if(sl!=sr) return sl<sr ? -1 : 1;
+    return nl - nr;
 }
 
 bool TimeStamp::operator==(TimeStamp const &right) const
@@ -163,14 +163,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From 72456ff3e9d73ea0fae3a2ec385ece4bd5a23f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 43/47] fix: property helpers report their attachment and set
 any value

PVDisplay::isAttached() and PVEnumerated::choicesMutable() were inverted,
PVEnumerated::getChoices() crashed when not attached, a failed attach()
could leave parts of an earlier attachment, PVAlarm::set() and
PVTimeStamp::set() failed or did nothing when the values being replaced
were not valid or not normalized.
---
 src/property/pv/pvEnumerated.h |  2 +-
 src/property/pvAlarm.cpp       |  9 ++++-----
 src/property/pvControl.cpp     |  2 ++
 src/property/pvDisplay.cpp     |  3 ++-
 src/property/pvEnumerated.cpp  | 11 ++++++++++-
 src/property/pvTimeStamp.cpp   |  9 ++++-----
 6 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/property/pv/pvEnumerated.h b/src/property/pv/pvEnumerated.h
index c10f4aa..8c9813f 100644
--- a/src/property/pv/pvEnumerated.h
+++ b/src/property/pv/pvEnumerated.h
@@ -88,7 +88,7 @@ public:
      * @return The current index.
      * @throw if not attached.
      */
-    inline PVStringArray::const_svector getChoices(){return pvChoices->view();}
+    PVStringArray::const_svector getChoices();
     /**
      * Get the size of the choices array.
      * @return The size.
diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 213d4d0..f841065 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -25,6 +25,7 @@ string PVAlarm::notAttached("Not attached to an alarm structure");
 
 bool PVAlarm::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvSeverity = pvStructure->getSubField<PVInt>("severity");
@@ -72,20 +73,18 @@ bool PVAlarm::set(Alarm const & alarm)
         throw std::logic_error(notAttached);
     }
     if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
-    Alarm current;
-    get(current);
     bool returnValue = false;
-    if(current.getSeverity()!=alarm.getSeverity())
+    if(pvSeverity->get()!=alarm.getSeverity())
     {
         pvSeverity->put(alarm.getSeverity());
         returnValue = true;
     }
-    if(current.getStatus()!=alarm.getStatus())
+    if(pvStatus->get()!=alarm.getStatus())
     {
         pvStatus->put(alarm.getStatus());
         returnValue = true;
     }
-    if(current.getMessage()!=alarm.getMessage())
+    if(pvMessage->get()!=alarm.getMessage())
     {
         pvMessage->put(alarm.getMessage());
         returnValue = true;
diff --git a/src/property/pvControl.cpp b/src/property/pvControl.cpp
index be023e1..7e96544 100644
--- a/src/property/pvControl.cpp
+++ b/src/property/pvControl.cpp
@@ -25,6 +25,7 @@ string PVControl::notAttached("Not attached to an control structure");
 
 bool PVControl::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvLow = pvStructure->getSubField<PVDouble>("limitLow");
@@ -47,6 +48,7 @@ void PVControl::detach()
 {
     pvLow.reset();
     pvHigh.reset();
+    pvMinStep.reset();
 }
 
 bool PVControl::isAttached(){
diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index 0027cb7..613a969 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -25,6 +25,7 @@ string PVDisplay::notAttached("Not attached to an display structure");
 
 bool PVDisplay::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvDescription = pvStructure->getSubField<PVString>("description");
@@ -62,7 +63,7 @@ void PVDisplay::detach()
 }
 
 bool PVDisplay::isAttached() {
-    if(pvDescription.get()) return false;
+    if(pvDescription.get()==NULL) return false;
     return true;
 }
 
diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 5aa61d0..8bccdd4 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -25,6 +25,7 @@ string PVEnumerated::notAttached("Not attached to an enumerated structure");
 
 bool PVEnumerated::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvIndex = pvStructure->getSubField<PVInt>("index");
@@ -86,7 +87,15 @@ bool PVEnumerated::choicesMutable()
     if(pvIndex.get()==NULL ) {
          throw std::logic_error(notAttached);
     }
-    return pvChoices->isImmutable();
+    return !pvChoices->isImmutable();
+}
+
+PVStringArray::const_svector PVEnumerated::getChoices()
+{
+    if(pvIndex.get()==NULL ) {
+         throw std::logic_error(notAttached);
+    }
+    return pvChoices->view();
 }
 
 int32 PVEnumerated::getNumberChoices()
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 07976bf..78fbfdf 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -25,6 +25,7 @@ string PVTimeStamp::notAttached("Not attached to a timeStamp structure");
 
 bool PVTimeStamp::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr xxx = static_pointer_cast<PVStructure>(pvField);
     PVStructure* pvStructure = xxx.get();
@@ -73,20 +74,18 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
         throw std::logic_error(notAttached);
     }
     if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
-    TimeStamp current;
-    get(current);
     bool returnValue = false;
-    if(current.getSecondsPastEpoch()!=timeStamp.getSecondsPastEpoch())
+    if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
     {
         pvSecs->put(timeStamp.getSecondsPastEpoch());
         returnValue = true;
     }
-    if(current.getNanoseconds()!=timeStamp.getNanoseconds())
+    if(pvNano->get()!=timeStamp.getNanoseconds())
     {
         pvNano->put(timeStamp.getNanoseconds());
         returnValue = true;
     }
-    if(current.getUserTag()!=timeStamp.getUserTag())
+    if(pvUserTag->get()!=timeStamp.getUserTag())
     {
         pvUserTag->put(timeStamp.getUserTag());
         returnValue = true;
-- 
2.43.0


From 6db3c25f7e2d3844f8c1108332120e2ef00874fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 44/47] fix: Timer runs callbacks before they are due after the
 clock is set back

The time read before the first expired job was used for all jobs which
followed it.  When the clock was set back meanwhile, jobs scheduled since
then ran at once, and a callback which schedules itself again ran without
pause until the clock had caught up.
---
 src/misc/timer.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 211f11f..9360d40 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -85,9 +85,6 @@ void Timer::run()
 {
     epicsGuard<epicsMutex> G(mutex);
 
-    epicsTime now(epicsTime::getCurrent());
-    bool stale = false; // 'now' was read before the last job ran
-
     while(alive) {
         double waitfor;
 
@@ -97,9 +94,10 @@ void Timer::run()
             epicsGuardRelease<epicsMutex> U(G);
 
             waitForWork.wait();
-            now = epicsTime::getCurrent();
 
-        } else if((waitfor = queue.front()->timeToRun - now) <= 0) {
+            // read the time for each job.  The clock may have been set back since
+            // the last one, and jobs (re)scheduled since then are not due before it.
+        } else if((waitfor = queue.front()->timeToRun - epicsTime::getCurrent()) <= 0) {
             // execute first expired job
 
             // keep the list element to re-queue without allocating
@@ -122,22 +120,12 @@ void Timer::run()
                 queue.merge(running, TimerCallback::IncreasingTime());
             }
 
-            // don't update 'now' until all expired jobs run
-            stale = true;
-
-        } else if(stale) {
-            // expired jobs have run since 'now' was read.
-            // re-evaluate with the current time before waiting.
-            now = epicsTime::getCurrent();
-            stale = false;
-
         } else {
             waiting = true;
             // wait for first un-expired
             epicsGuardRelease<epicsMutex> U(G);
 
             waitForWork.wait(waitfor);
-            now = epicsTime::getCurrent();
         }
         waiting = false;
     }
-- 
2.43.0


From 58e2d2a8a594bc221dca8cafc5583ca25b3c9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 45/47] fix: shared_vector::reserve() drops elements of a
 shared buffer

A capacity below the size truncated the array, but only if the buffer
was shared.
---
 src/misc/pv/sharedVector.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 202c569..8bb666f 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -435,19 +435,17 @@ public:
     void reserve(size_t i) {
         if(this->unique() && i<=this->m_total)
             return;
-        size_t new_count = this->m_count;
-        if(new_count > i)
-            new_count = i;
+        if(i < this->m_count)
+            i = this->m_count; // keep all elements
         _E_non_const* temp=new _E_non_const[i];
         try{
-            std::copy(begin(), begin()+new_count, temp);
+            std::copy(begin(), end(), temp);
         }catch(...){
             delete[] temp;
             throw;
         }
         this->m_sdata.reset(temp, detail::default_array_deleter<E*>());
         this->m_offset = 0;
-        this->m_count = new_count;
         this->m_total = i;
     }
 
-- 
2.43.0


From 1409c9c29a152ecbd5fa6bf5835c3caa10d8272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 46/47] fix: decoding ignores the size of bounded strings and
 arrays

A value longer than its type allows was accepted from the wire, although
put() and replace() refuse it.
---
 src/factory/PVDataCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 86bd604..6bd7fd4 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -128,8 +128,10 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
-    storage.value = SerializeHelper::deserializeString(pbuffer, pflusher);
-    // TODO: check for violations of maxLength?
+    std::string next(SerializeHelper::deserializeString(pbuffer, pflusher));
+    if (storage.maxLength > 0 && next.length() > storage.maxLength)
+        throw std::overflow_error("string too long");
+    storage.value.swap(next);
 }
 
 PVString::PVString(ScalarConstPtr const & scalar)
@@ -319,6 +321,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
@@ -413,6 +416,7 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
 
-- 
2.43.0


From 833877fc90560b36c79090ddf2a979b72b42c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 47/47] fix: incomplete fixed size string array is serialized

The receiver expects all of its elements, which follow without a count.
Arrays of other types refuse this already.
---
 src/factory/PVDataCreateFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6bd7fd4..25c27a1 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -444,9 +444,11 @@ void PVValueArray<string>::serialize(ByteBuffer *pbuffer,
     const_svector temp(value);
     temp.slice(offset, count);
 
-    // TODO if fixed count == getArray()->getMaximumCapacity()
-    if (this->getArray()->getArraySizeType() != Array::fixed)
+    ArrayConstPtr array = this->getArray();
+    if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+    else if (temp.size() != array->getMaximumCapacity())
+        throw std::length_error("fixed array cannot be partially serialized");
 
     const string * pvalue = temp.data();
     for(size_t i = 0; i<temp.size(); i++) {
-- 
2.43.0

