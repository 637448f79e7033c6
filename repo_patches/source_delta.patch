From 0f1f5be5fb47790a3e162821f9a0568b0736bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 01/57] fix: assigning a resource handle to itself (or to
 another handle of the same resource) destroyed the resource

---
 src/mg/cresource.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 30e899d..cae8036 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -120,9 +120,13 @@ public:
 	//underline pointer
 	const CResource& Assign(const CResource& res)
 	{
-		if(m_pInternalResource) m_pInternalResource->release();
-		m_pInternalResource = res.m_pInternalResource;
-		if(m_pInternalResource) m_pInternalResource->addRef();	
+		//take the new reference before dropping the old one:
+		//both can be the same resource
+		CInternalResource<Type> *old = m_pInternalResource;
+		CInternalResource<Type> *pnew = res.m_pInternalResource;
+		if(pnew) pnew->addRef();
+		m_pInternalResource = pnew;
+		if(old) old->release();
 		return res;
 	}
    	//assign the resource to another resource
-- 
2.43.0


From ef4bbcc17e354d46b809209f26bdc282f91edf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 02/57] fix: the share count of resource handles is updated
 from two threads without synchronisation

---
 src/mg/cresource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index cae8036..a4b3256 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -24,6 +24,7 @@
 #include <new>
 
 #include <functional>
+#include <atomic>
 
 #pragma once
 
@@ -48,7 +49,7 @@ class CInternalResource
 private:
 
 	Type *m_pointer;
-	long m_iRefCnt;
+	std::atomic<long> m_iRefCnt;
 
 	std::function<void(Type*)> _cleanup;
 	
@@ -76,8 +77,7 @@ private:
 
 	virtual void release()
 	{
-		m_iRefCnt--;
-		if (0 == m_iRefCnt)
+		if (0 == --m_iRefCnt)
 		{
 			if (_cleanup)
 				_cleanup(m_pointer);
-- 
2.43.0


From 6e818b36e2860ca536138c864172cd2133c5cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 03/57] fix: the promise was asked whether it has a value
 without its lock

---
 src/mg/promises.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/promises.h b/src/mg/promises.h
index 520941e..23acefd 100644
--- a/src/mg/promises.h
+++ b/src/mg/promises.h
@@ -145,7 +145,7 @@ public:
 		return (*this);
 	}
 
-	bool has_value() { return (_value) ? true : false; }
+	bool has_value() { auto_lock l(_cs); return (_value) ? true : false; }
 
 };
 
-- 
2.43.0


From 07a168e65dd4e43623088b6d8d20131b90d9ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 04/57] fix: signal events lost wake-ups: the state was read
 and set without the lock, one waiter was woken, a wake-up was taken for a
 signal

---
 src/mg/core/thread.cpp | 49 +++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index c783ffe..6a3e282 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -98,56 +98,47 @@ signal_event::~signal_event()
 
 void signal_event::signal()
 {
-	if (_signed)
-		return;
+	auto_lock l(_crit_sec);
 
 	_signed = true;
-	//free anyone waiting
-	uv_cond_signal(&_cond_t);
-
+	//free everyone waiting
+	uv_cond_broadcast(&_cond_t);
 }
 
 void signal_event::reset()
 {
+	auto_lock l(_crit_sec);
+
 	_signed = false;
 }
 
 void signal_event::wait()
 {
-	if (_signed)
-		return;
-	
-	_crit_sec.lock();
-	uv_cond_wait(&_cond_t, &_crit_sec._mutex);
-	_crit_sec.unLock();
+	auto_lock l(_crit_sec);
+
+	while (!_signed)
+		uv_cond_wait(&_cond_t, &_crit_sec._mutex);
 }
 
 bool signal_event::wait(uint32_t millyseconds)
 {
-	if (_signed)
-	   return true;
+	auto_lock l(_crit_sec);
 
-	double t = millyseconds;
-	         t *= 1e6;
-	
-	
-	bool work = true;
+	const uint64_t deadline = uv_hrtime() + (uint64_t)millyseconds * 1000000;
 
-	
-	if(!_crit_sec.try_lock())
-		return false;
-	int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, (uint64_t)t);
-	_crit_sec.unLock();
-	if(0 == n)
-	  return (_signed);
+	while (!_signed)
+	{
+		const uint64_t now = uv_hrtime();
 
-	if(UV_ETIMEDOUT == n)
-	  return false;
+		int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, (now < deadline) ? deadline - now : 0);
 
-	UVCHECK(n);
+		if (UV_ETIMEDOUT == n)
+			return _signed;
 
-	return false;
+		UVCHECK(n);
+	}
 
+	return true;
 }
 
 bool signal_event::is_signaled()
-- 
2.43.0


From e2b5cce1d876da1e9e610e73460a2356636097b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 05/57] fix: a thread that was never started was joined, which
 ended the program

---
 src/mg/core/thread.cpp | 2 ++
 src/mg/core/thread.h   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index 6a3e282..9be9461 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -175,6 +175,8 @@ void cthread::start()
 {
 	int n = uv_thread_create(&_thread_t, startThread, this);
 	UVCHECK(n);
+
+	_joined = false;
 }
 
 void cthread::stop()
diff --git a/src/mg/core/thread.h b/src/mg/core/thread.h
index 1d51ae9..2963b08 100644
--- a/src/mg/core/thread.h
+++ b/src/mg/core/thread.h
@@ -97,7 +97,7 @@ class auto_lock
 class cthread
 {
 	uv_thread_t _thread_t;
-	bool _joined;
+	bool _joined;//nothing to join: not started, or joined
 private:
 
 	signal_event _event;
@@ -128,7 +128,7 @@ public:
 
 	void join();	
 
-	cthread() :_joined(false) {}
+	cthread() :_joined(true) {}
 
 };
 
-- 
2.43.0


From a6a325f7fd82d31e385fc9ef263ca0845abd9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 06/57] fix: errors reported by libuv were replaced by an
 overflow error, which left the failed operation's handler uncalled

---
 src/mg/core/file.cpp | 6 +++---
 src/mg/core/uvbase.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index d7efaf5..1872f63 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -137,11 +137,11 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	if(0 > req->result)
 	{
 
-		std::cout << "!!!file async error " << uv_strerror(ST_U32(req->result))
+		std::cout << "!!!file async error " << uv_strerror((int)req->result)
 			<< _T("\t")
 			<< std::endl;
 
-		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(ST_U32(req->result), uv_strerror(ST_U32(req->result)), _T(__FILE__), __LINE__)));
+		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception((int)req->result, uv_strerror((int)req->result), _T(__FILE__), __LINE__)));
 	}
 	else
 	{
@@ -211,7 +211,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 			CResource<CPromise<uv_fs_t> > prom;
 			                              prom.Create();
 
-										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(ST_U32(req.result), uv_strerror(ST_U32(req.result)), _T(__FILE__), __LINE__)));
+										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception((int)req.result, uv_strerror((int)req.result), _T(__FILE__), __LINE__)));
 
 										  return prom;
 
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 1c570e4..8ef1483 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -33,7 +33,7 @@
 __UV_BEGIN_NAMESPACE
 
 
-#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(ST_U32(num), uv_strerror(ST_U32(num)), _T(__FILE__), __LINE__); } }
+#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception((int)(num), uv_strerror((int)(num)), _T(__FILE__), __LINE__); } }
 
 
 
-- 
2.43.0


From 2ce64e020926fa79d1449e901ab9391891766a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 07/57] fix: a read delivered late was judged by the result of
 another read

---
 src/mg/core/file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 1872f63..4ec0119 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -92,6 +92,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 		fcb->_p_forward->remove(temp);
 
 		fcb = temp;
+		req = fcb->_uv_fs_t;
 	
 	}
 
-- 
2.43.0


From c2c7d63268a79fa271e19e5f85b3bd39cbdd8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 08/57] fix: a short write was reported as complete

---
 src/mg/core/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 4ec0119..55fa462 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -382,7 +382,8 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 		{
 			/*(*ppos) += pBuffer->size();*/
 			//keep an active reference to the buffer. //we can work in fire and forget.
-			_ASSERTE(req->result = pBuffer->size());
+			if (static_cast<size_t>(req->result) != pBuffer->size())
+				throw MGCORE::mgexception(UV_EIO, uv_strerror(UV_EIO), _T(__FILE__), __LINE__);
 	    }
 	);
 
-- 
2.43.0


From fccb405db2b29f079cc9a10467502179b6925592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 09/57] fix: an operation that could not be submitted leaked
 and blocked close for ever; the counters were compared while the loop changed
 them

---
 src/mg/core/file.cpp | 19 +++++--------------
 src/mg/core/file.h   | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 55fa462..cb72914 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -248,13 +248,11 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 
 		CResource<CPromise<uv_fs_t>> f = cb->forward();
 
-		do_outstanding(cb);
-
 		do {
 
 			auto_lock l(_loop->loop_lock());
 			int r = uv_fs_open(_loop->get_loop(), cb->_uv_fs_t, path, flags, mode, uv_file_cb);
-			UVCHECK(r);
+			do_outstanding(cb, r);
 
 		} while (0);
 
@@ -281,7 +279,7 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 	//std::cout << _T("cfile::close\t") << _served << _T("\t") << _outstanding << std::endl;
 
-	while (this->_served != this->_outstanding)
+	while (0 != outstanding())
 	{
 		_ended.wait(10);
 	}
@@ -315,14 +313,11 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 		CResource<CPromise<uv_fs_t>> f = cb->forward();
 
-		do_outstanding(cb);
-
-
 		do {
 
 			auto_lock l(_loop->loop_lock());
 			int r = uv_fs_close(_loop->get_loop(), cb->_uv_fs_t, _file, uv_file_cb);
-			UVCHECK(r);
+			do_outstanding(cb, r);
 
 		} while (0);
 
@@ -389,13 +384,11 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 
 	CResource<CPromise<uv_fs_t>> f = cb->forward();
 
-	do_outstanding(cb);
-
 	do {
 
 		auto_lock l(_loop->loop_lock());
 		int r = uv_fs_write(_loop->get_loop(), cb->_uv_fs_t, _file, &buf, 1, pos, uv_file_cb);
-		UVCHECK(r);
+		do_outstanding(cb, r);
 
 	} while (0);
 
@@ -452,13 +445,11 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 			}
 		);
 
-		do_outstanding(cb);
-
 		do {
 
 			auto_lock l(_loop->loop_lock());
 			int r = uv_fs_read(_loop->get_loop(), cb->_uv_fs_t, _file, &buf, 1, pos, uv_file_cb);
-			UVCHECK(r);
+			do_outstanding(cb, r);
 
 		} while (0);
 
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index e565f53..db33d0b 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -58,7 +58,7 @@ struct struct_file_cb: CPromise<uv_fs_t>
 class cfile
 {
 	
-	MGUV::loopthread _loop;
+	mutable MGUV::loopthread _loop;
 
 	static void uv_file_cb(uv_fs_t* req);
 
@@ -85,8 +85,14 @@ class cfile
 
 	signal_event        _ended;
 
-	 void do_outstanding(struct_file_cb * fcb)
+	 //called under the loop lock with the result of the submission
+	 void do_outstanding(struct_file_cb * fcb, int r)
 	 {
+		 if (r < 0)
+			 delete fcb;
+
+		 UVCHECK(r);
+
 		 fcb->_p_served = &_served;
 		 //fcb->_p_outstanding = &_outstanding;
 
@@ -131,7 +137,12 @@ public:
 		return (size())?(get_position() >= ( size() /*-1*/ )):true;
 	}
 
-	virtual int32_t outstanding() const { return _outstanding - _served; }
+	virtual int32_t outstanding() const
+	{
+		auto_lock l(_loop->loop_lock());
+
+		return _outstanding - _served;
+	}
 	
 };
 
-- 
2.43.0


From 20f4595f8c368759b3e2c4314ad552b41908dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 10/57] fix: a file destroyed while it was being opened was
 used by the completion

---
 src/mg/core/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index cb72914..b168f99 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -183,7 +183,7 @@ cfile::cfile(::mg::uv::loopthread & loop)
 
 cfile::~cfile()
 {
-	if (_file)
+	if (_file || outstanding())
 		close(false);
 }
 
-- 
2.43.0


From f6c7312292c96c6d5cc535c1379ee526ef768a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 11/57] fix: positions of 4 GiB and more were truncated when
 seeking in a file

---
 src/mg/core/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index db33d0b..00bada0 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -266,7 +266,7 @@ public:
 	virtual uint64_t get_position() const { return ::ftell(_f); }
 
 	virtual void     set_position(uint64_t rhs) {
-		::fseek(_f, static_cast<uint32_t>(rhs), SEEK_SET);
+		::fseek(_f, static_cast<long>(rhs), SEEK_SET);
 	}
 
 	void close()
-- 
2.43.0


From 5821150122fdeda1e2a7568a6eebe9dd1333b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 12/57] fix: the stop request and the wait time of the loop
 thread were shared between threads without synchronisation

---
 src/mg/core/uvbase.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 8ef1483..8cc6eed 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -24,6 +24,7 @@
 #include "../exception.h"
 #include <uv.h>
 #include "thread.h"
+#include <atomic>
 
 #define __UV_BEGIN_NAMESPACE namespace mg {namespace uv{
 #define __UV_END_NAMESPACE     }}
@@ -111,9 +112,9 @@ class uvloopthread : public MGCORE::cthread
 
 	MGCORE::signal_event _w;
 
-	uint32_t _wait_time;
+	std::atomic<uint32_t> _wait_time;
 	
-	bool _exit;
+	std::atomic<bool> _exit;
 
 	std::exception_ptr _last_exception;
 
-- 
2.43.0


From e8abe51fa81d30c43ab1d27f8eff2ef0b2b47098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 13/57] fix: creating a directory that exists failed: the error
 number was looked for in the return value

---
 src/mg/core/nx/util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/nx/util.cpp b/src/mg/core/nx/util.cpp
index 81d9934..5c5e692 100644
--- a/src/mg/core/nx/util.cpp
+++ b/src/mg/core/nx/util.cpp
@@ -21,6 +21,7 @@
  *****************************************************************************/
 #include "../../exception.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 
@@ -55,8 +56,10 @@ void delete_file(const TCHAR* pszname)
 void create_directory(const TCHAR* pszname)
 {
     int r = mkdir(pszname , S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-    if(EEXIST != r)
-        MGCHECK(r);
+    if(0 != r && EEXIST == errno)
+        return;
+
+    MGCHECK(r);
 }
 
 __MGCORE_END_NAMESPACE
-- 
2.43.0


From f6b39b166267f46aa95352018ab11f5ae2573a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 14/57] fix: a lock that could not be created was used: pthread
 errors are positive

---
 src/mg/core/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index 9be9461..29dca94 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -74,7 +74,8 @@ err = pthread_mutex_init(&_mutex, &attr);
 if (pthread_mutexattr_destroy(&attr))
 abort();
 
-	UVCHECK(err);
+	//pthread errors are positive
+	UVCHECK(-err);
 
 #endif
 }
-- 
2.43.0


From abbe5ab67f112923c3f16da928722b2d7d9bfe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 15/57] fix: reading or writing the last bits of the buffer
 touched the bytes after it

---
 src/mg/core/bitstream.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 23aa4df..522e15f 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -51,6 +51,9 @@
 #define BITSTREAM_READ_DEBUG 0
 #define BITSTREAM_POSITION_DEBUG 0
 
+//the bytes around a value are accessed as a whole: up to 4 more than the value needs
+#define BITSTREAM_SLACK 4
+
 
 __MGCORE_BEGIN_NAMESPACE
 
@@ -365,7 +368,7 @@ class bitstream_base : public Ibitstream_cb
 	{
 		if (!_load)
 		{
-			::memset(_buf, 0, _buf_size);
+			::memset(_buf, 0, _buf_size + BITSTREAM_SLACK);
 			return;
 		}
 
@@ -385,12 +388,14 @@ class bitstream_base : public Ibitstream_cb
 
 	void init(uint32_t buf_len, bool load = true)
 	{
-		_buf        = new unsigned char[buf_len];
+		_buf        = new unsigned char[buf_len + BITSTREAM_SLACK];
 		_buf_size   = buf_len;
         _shadow_buf = new unsigned char[buf_len];
 		_shadow_len = 0;
 		_buf_len    = 0;
 
+		::memset(_buf, 0, buf_len + BITSTREAM_SLACK);
+
 		_cur_bit = 0;
 		_load = load;
 
-- 
2.43.0


From 1d7f57123c76f6c867fcebf93c47272c9e25a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 16/57] fix: the last bytes of a stream were read from the
 wrong place of the shadow buffer

---
 src/mg/core/bitstream.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 522e15f..1c7e52e 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1219,6 +1219,9 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 				memcpy(_buf + u, _shadow_buf, n);
 				_shadow_len -= n;
 				_buf_len += n;
+
+				//what is left starts at the beginning
+				memmove(_shadow_buf, _shadow_buf + n, _shadow_len);
 			}
 			else
 			{
@@ -1258,13 +1261,6 @@ template<class Type> void bitstream_base<Type>::read_cb(const unsigned char * p_
 
 			if (read)
 			{
-				
-				if (_shadow_len)
-				{
-					//copy end to beginning
-					memcpy(_shadow_buf, _shadow_buf + (_buf_size - _shadow_len), _shadow_len);
-				}
-
 				memcpy(_shadow_buf + _shadow_len, p_val, read);
 
 				_shadow_len += read;
-- 
2.43.0


From f52a4987697498df5227b12f6392c2d633a9dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 17/57] fix: the end of the data was reported while the last
 read was still on its way

---
 src/mg/core/bitstream.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 1c7e52e..6025c7e 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -571,9 +571,14 @@ public:
 	virtual bool atend()
 	{
 		if (_p_cb->eof())
+		{
+			//the last read can be still on its way
+			wait();
+
 			if(!_shadow_len)
-				if ((_buf_len << 3) <= _cur_bit)
+				if (((uint64_t)_buf_len << 3) <= _cur_bit)
 					return true;
+		}
 
 		return false;
 	}
@@ -582,7 +587,10 @@ public:
 	{
 		if (_p_cb->eof())
 		{
-			uint64_t available = (_buf_len << 3) - _cur_bit;
+			//the last read can be still on its way
+			wait();
+
+			uint64_t available = (((uint64_t)_buf_len + _shadow_len) << 3) - _cur_bit;
 			//if (((_buf_len * 8 - _cur_bit) - nbit) >= 0)
 			if(available >= nbit)
 				return true;
@@ -1166,15 +1174,14 @@ public:
 
 template<class Type> void bitstream_base<Type>::fill_buf()
 {
+	//the last read can be still on its way
+	wait();
+
 	if ((!_shadow_len) && _p_cb->eof())
 		throw EndOfData(_T(__FILE__), __LINE__);
 
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
-	if (_shadow_len != _buf_size) {
-		wait();
-	}
-
 	{
 		auto_lock l(_load_lock);
 
-- 
2.43.0


From bc62b7e5dd7ddce72e6a08c71cb979836218ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 18/57] fix: bits after the end of the data were returned as
 zeros

---
 src/mg/core/bitstream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 6025c7e..fcbf5d6 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1329,7 +1329,10 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	if (_cur_bit + n >(_buf_len << 3))
 	{
 		fill_buf();
-		_ASSERTE(_cur_bit == 0);
+
+		//what was left is not enough
+		if (_cur_bit + n > ((uint64_t)_buf_len << 3))
+			throw EndOfData(_T(__FILE__), __LINE__);
 	}
 
 	// starting byte in buffer
-- 
2.43.0


From 8e2fb4e1b8e04f98c895d94cdfcee9b3b0569281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 19/57] fix: reading bytes failed when less than four were left
 after them

---
 src/mg/core/bitstream.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index fcbf5d6..5d06dd9 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -1000,8 +1000,6 @@ private:
 
 			this->_cur_bit += (size << 3);
 			this->_tot_bits += (size << 3);
-
-			this->_nextbits(32); //reload buffer if needed
 		}
 		else /*if ((available + this->_shadow_len) > size)*/
 		{
@@ -1012,7 +1010,7 @@ private:
 			this->_tot_bits += (available << 3);
 
 			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
+				this->fill_buf();
 			else
 			{
 				//we are at the end
@@ -1035,9 +1033,6 @@ private:
 			this->_cur_bit += (todo << 3);
 			this->_tot_bits += (todo << 3);
 
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			
 			(*read) = available + todo;
 
 		}
-- 
2.43.0


From 02962e902f21dea1e625027d75aca9ce15e4e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 20/57] fix: skipping over the end of the buffer went to the
 wrong place, or waited for data with the lock that delivers it

---
 src/mg/core/bitstream.h | 74 +++++++++++++----------------------------
 1 file changed, 23 insertions(+), 51 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 5d06dd9..7763c8d 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -916,68 +916,40 @@ protected:
 
 	virtual void _skipbits(uint16_t n)
 	{
-		//_getbits(n); 
-
-		mg::core::auto_lock l(_load_lock);
-
-		uint64_t bit_len = _buf_len << 3;
-
-        _ASSERTE(bit_len >= _cur_bit);
-
-		uint64_t bit_ava = bit_len - _cur_bit;
-
-		if (bit_ava < n)
+		if (!_load)
 		{
-			//we do not have enough bits
-
-			uint64_t bit_sha = _shadow_len << 3;
-
-			if ((bit_ava + bit_sha) > n)
+			while (n)
 			{
-				_cur_bit += bit_ava;
-				_nextbits(32); //move at the beginning of the _shadow and async reload shadow
-				_ASSERTE(_cur_bit == 0);
-				_ASSERTE((bit_sha >> 3) == _buf_len);
-				_ASSERTE((n - bit_ava) < (_buf_len << 3));
-				_cur_bit += (n - bit_ava);
-				_tot_bits += n;
+				const short k = (n > 32) ? 32 : n;
+
+				_putbits(0, k);
+				n -= k;
 			}
-            else if(has_bits(n))
-			{
-				uint64_t pos = _getpos();
-				         pos += n;
 
-						 uint64_t remain = pos % 8;
+			return;
+		}
 
-						 _set_position((pos + n) >> 3);
+		while (n)
+		{
+			uint64_t bit_ava = ((uint64_t)_buf_len << 3) - _cur_bit;
 
-						 _ASSERTE(_cur_bit == 0);
+			if (bit_ava >= n)
+				bit_ava = n;
 
-                         _ASSERTE((_buf_len << 3) >= (_cur_bit + remain));
+			_cur_bit += bit_ava;
+			_tot_bits += bit_ava;
 
-						 _cur_bit += remain;
-						 _tot_bits += remain;
-						 
-			}
-            else
-            {
-                //we are at the end
-                if(!atend())
-                {
-                    _cur_bit += bit_ava;
-				    _tot_bits += bit_ava; 
-                }
+			n -= static_cast<uint16_t>(bit_ava);
 
-                _ASSERTE(atend());
-            }
+			if (n)
+			{
+				//we stop at the end
+				if (atend())
+					return;
 
+				fill_buf();
+			}
 		}
-		else
-		{
-			_cur_bit += n;
-			_tot_bits += n;
-		}
-
 	}
 private:
 
-- 
2.43.0


From 2ef1eaf81cee11e9474fd8ec7f7f44f63f181c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 21/57] fix: aligning at the end of the data never ended

---
 src/mg/core/bitstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 7763c8d..eb61e75 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -503,7 +503,7 @@ protected:
 	{
 		int s = 0;
 		// we only allow alignment on multiples of bytes
-		if (n % 8) {
+		if (n <= 0 || n % 8) {
 			throw InvalidAlignment(__FILE__, __LINE__);
 			return 0;
 		}
@@ -513,6 +513,8 @@ protected:
 			_skipbits(s);
 		}
 		while (_tot_bits % n) {
+			if (_load && atend())
+				throw EndOfData(_T(__FILE__), __LINE__);
 			s += 8;
 			_skipbits(8);
 		}
-- 
2.43.0


From 0c6dcc1c79b24b30d4c19de978b4acbd2ef63f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 22/57] fix: moving to another position went to the wrong bit,
 or before a pending read, or past the buffer

---
 src/mg/core/bitstream.h | 117 ++++++++--------------------------------
 1 file changed, 22 insertions(+), 95 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index eb61e75..7f9ec6f 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -716,122 +716,49 @@ public:
 
 		bool do_reload = false;
 		{
-			if (0 == _shadow_len && ((!_p_cb->eof()) || _pending_read) )
-			{
-				wait();
-			}
-
-			mg::core::auto_lock l(_load_lock);
-			
-			//buffer start
-			uint64_t epos = _p_cb->get_position();
-            
-			uint64_t kpos  = epos;
-			kpos -= _buf_len;
-			kpos -= _shadow_len;
-			uint64_t pos = kpos + (_cur_bit >> 3);
+			//the last read can be still on its way
+			wait();
 
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
+			const uint64_t epos = _p_cb->get_position();
+			const uint64_t spos = epos - _shadow_len; //shadow start
+			const uint64_t kpos = spos - _buf_len;    //buffer start
 
 			FDBGC6(BITSTREAM_POSITION_DEBUG
 				, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
-				, rhs, epos, pos, _buf_len, _shadow_len, _buf_size);
-
-			if ((rhs < epos) //already read
-				&& (kpos <= rhs)
-				)
-			{
-
-
-
-				//we can move in buffer
-				uint64_t cur_ava = (_buf_len - (_cur_bit >> 3));
-				uint64_t advance = 0;
-				
-				if(rhs > pos)
-					advance = rhs - pos;
-
-				if (advance > cur_ava)
-				{
-					
-
-					_ASSERTE((advance - cur_ava) <= _shadow_len);
-
-					_cur_bit  += (cur_ava << 3);
-					_tot_bits += (cur_ava << 3);
+				, rhs, epos, kpos, _buf_len, _shadow_len, _buf_size);
 
-					//force buffer switch
-					this->_nextbits(32);
+			//move to the end
+			if (epos < rhs && _p_cb->eof())
+				rhs = epos;
 
-					_ASSERTE(0 == _cur_bit);
-					//_ASSERTE(0 == _shadow_len);
-
-					uint64_t n = ((advance - cur_ava) << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit  += n;
-					_tot_bits += n;
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-				}
-				else if ((rhs < pos) && rhs >= (kpos))
+			if (kpos <= rhs && rhs <= epos) //already read
+			{
+				if (rhs <= spos)
 				{
-					//move backward
-					uint64_t n = pos - rhs;
-
-					_ASSERTE((_cur_bit >> 3) >= n);
-					_ASSERTE((_tot_bits >> 3) >= n);
-
-					_cur_bit -= (n << 3);
-
-					if (_tot_bits < (n << 3))
-						_tot_bits = 0;
-					else
-						_tot_bits -= (n << 3);
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
+					//move in current buffer
+					_cur_bit = (rhs - kpos) << 3;
 				}
 				else
 				{
-					//move in current buffer
-					uint64_t n = (advance << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit += n;
-					_tot_bits += n;
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
+					//buffer switch
+					_cur_bit = (uint64_t)_buf_len << 3;
+					fill_buf();
+					_cur_bit = (rhs - spos) << 3;
 				}
+
+				_tot_bits = rhs << 3;
 			}
-            else if(_p_cb->eof() && epos < rhs)
-            {
-                //move to the end
-                if(pos < epos)
-                {
-                    uint64_t n = (epos - pos) << 3;
-                    _cur_bit += n;
-                    _tot_bits += n;
-
-                    _ASSERTE((_cur_bit >> 3) <= _buf_size);
-                }
-            }
 			else
 			{
-                
-
 				//reset
-                _p_cb->set_position(rhs);
+				_p_cb->set_position(rhs);
 				_tot_bits = rhs << 3;
 
 				do_reload = true;
 
 				FDBGC3(BITSTREAM_READ_DEBUG
 					, "SET-POSITION-RELOAD\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 ""
-					, rhs, epos, pos);
+					, rhs, epos, kpos);
 
 			}
 
-- 
2.43.0


From 59a337d2fbb451def6d784e72a4ee3572392cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 23/57] fix: the position was wrong after writing 512 MiB at
 once

---
 src/mg/core/bitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 7f9ec6f..70bfd8b 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -837,7 +837,7 @@ public:
 
 		_p_cb->write(pbyte, size, this); //fire and forget
 
-		_tot_bits += (size << 3);
+		_tot_bits += ((uint64_t)size << 3);
 	}
 	
 	
-- 
2.43.0


From 77ee95f79a9a3ebb79e88303211b7eee4be4841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 24/57] fix: reading a buffer after its end copied the memory
 behind it

---
 src/mg/cbuffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f6be9f3..41e91d4 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -154,10 +154,12 @@ public:
 	//READ A SPECIFIED NUMBER OF TYPES FROM THE SPECIFIED POSITION
 	bool ReadBuffer(type *buffer, unsigned long dwsize, unsigned long &dwread, sizetype position)
 	{
-				dwread = m_iCurrent - position;
-				if(0 > dwread) //did not have nothing to read
+				dwread = 0;
+				if(position > m_iCurrent) //did not have nothing to read
 					return false;
 
+				dwread = m_iCurrent - position;
+
 				if(dwsize < dwread) //we still have space
 					dwread = dwsize;
 
-- 
2.43.0


From 5c937f5d5ccb21484b363afe69ff9f36103335a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 25/57] fix: writing after reading from a memory stream went
 past the end of its memory

---
 src/mg/media/TBitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/TBitstream.h b/src/mg/media/TBitstream.h
index 1e119db..d49ce92 100644
--- a/src/mg/media/TBitstream.h
+++ b/src/mg/media/TBitstream.h
@@ -141,7 +141,7 @@ public:
 			possible_read = static_cast<uint32_t>(_size - _current_pos);
 
 		uint64_t pos = _current_pos;
-		_current_pos += possible_read;
+		set_position(_current_pos + possible_read);
 		align_size();
 
 		//callback
-- 
2.43.0


From 0db76a253e41217b3893c2e6f31f5eff9dcb76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 26/57] fix: the copy of a stream could end while its last
 callback was running; its counters were shared without synchronisation

---
 src/mg/core/bitstream.cpp | 57 +++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 05920b3..df6e8dd 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -35,7 +35,8 @@ class _ccopy_stream :public Ibitstream_cb
 	signal_event         _read_event;
 	signal_event         _write_event;
 
-	
+	//the callbacks run in another thread
+	critical_section     _lock;
 
 	uint32_t _read;
 	uint32_t _write;
@@ -52,6 +53,13 @@ class _ccopy_stream :public Ibitstream_cb
 				throw Timeout(__FILE__, __LINE__);
 	}
 
+	uint32_t outstanding()
+	{
+		auto_lock l(_lock);
+
+		return _read - _write;
+	}
+
 public:
 
 	
@@ -60,7 +68,7 @@ public:
 	
 	void wait_read()
 	{
-		while (_read - _write > _max_out)
+		while (outstanding() > _max_out)
 		{
 			_read_event.reset();
 			FDBGC3(COPY_STREAM_WAIT, "wait-read\t%u\t%u\t%u", _read, _write, _traveling);
@@ -74,44 +82,21 @@ public:
 
 	void wait_end()
 	{
-		_wait_end = true;
-
-		if (_read == _write)
-		{
-			//wait for the last call to read_cb to end
-            //we do not want to wait in case the call is synchronous
-			if(!_write_event.wait(NO_WAIT))
-			{
-			   //_ASSERTE(false);
-		       //MGCHECK(E_TIMEOUT);
-			}
-
-			return;
-		}
+		do {
 
-		while (!_write_event.wait(SMALL_WAIT))
-		{
+			auto_lock l(_lock);
 
-			FDBGC4(COPY_STREAM_DEBUG, "wait-end\t%u\t%u\t%u\t%u", _read, _write, _traveling, 0);
+			_wait_end = true;
 
 			if (_read == _write)
-			{
-				//wait for the last call to read_cb to end
-				if (!_write_event.wait(SMALL_WAIT))
-				{
-					_ASSERTE(false);
-
-					MGCHECK(E_TIMEOUT);
-				}
-
 				return;
-			}
 
-			
-		}
+		} while (0);
 
 		_write_event.wait();
 
+		//wait for the last call to write_cb to end
+		auto_lock l(_lock);
 	}
 
 
@@ -130,9 +115,14 @@ public:
 	
 	void read(Ibitstream_storage & source, uint32_t chunk)
 	{
-		_read++;
+		do {
+
+			auto_lock l(_lock);
+
+			_read++;
+
+		} while (0);
 
-		
 		source.read(chunk, this);
 
 		
@@ -157,6 +147,7 @@ public:
 	
 	virtual void write_cb(uint32_t written) override
 	{	
+		auto_lock l(_lock);
 
 		_write++;
 		
-- 
2.43.0


From e7dbbe2af4667ef47143dc38133d13f5a0155e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 27/57] fix: the copy of a part of a stream went on to the end
 of the chunk

---
 src/mg/core/bitstream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index df6e8dd..dbeeceb 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -191,7 +191,11 @@ void copy_stream(
 	{
 	
 		ccs.wait_read();
-		
+
+		//not after the end
+		if (endpos != 0 && endpos - source.get_position() < chunk)
+			chunk = static_cast<uint32_t>(endpos - source.get_position());
+
 		FDBGC0(COPY_STREAM_DEBUG, "read");
 
 		ccs.read(source, chunk);
-- 
2.43.0


From 1f87caa7474e29b0519695a2e76af962bb7599db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 28/57] fix: adding a part of a buffer to itself read memory
 that was freed

---
 src/mg/cbuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index 41e91d4..91dea1d 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -97,8 +97,15 @@ public:
 		if(0 == size)
 			return;
 
+		//the source can be in this buffer, which prepare can move
+		const bool   own = (source >= m_p && source < m_p + m_iSize);
+		const size_t at  = (own) ? source - m_p : 0;
+
 		prepare(size);
 
+		if(own)
+			source = m_p + at;
+
 		//DOUBLE CHECK BUT THIS SHOULD NEVER HAPPEN SINCE PREPARE DOES THE SAME CHECK
 		if((m_iSize - m_iCurrent) < size)throw std::bad_alloc();
 		//----------------------------------//
-- 
2.43.0


From 144b2d1ad8b741cdd1782a6b6e47641a2766103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 29/57] fix: a sub string longer than what follows was read
 after the end of the string

---
 src/mg/alxstring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index a27027b..170ff2c 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -637,10 +637,12 @@ public:
 	{
 		CstringT &s = const_cast<CstringT&>(*this);
 		//let see if the source buffer is big enough
-		nLen = ST_U32((s.m_str->getSize() - nbegin) < nLen?s.m_str->getSize():nLen);
+		const size_t nFull = s.m_str->getFull();
+		const size_t nFrom = nbegin < nFull?nbegin:nFull;
+		nLen = (nFull - nFrom) < nLen?(nFull - nFrom):nLen;
 			CResource<CBuffer<TCHAR> > tmp(new CBuffer<TCHAR>(nLen + 1));
 			const TCHAR *sz = s;
-			tmp->add(sz + nbegin, nLen);
+			tmp->add(sz + nFrom, nLen);
 
 			return tmp;
 	}
-- 
2.43.0


From 2e8811c91d1ef191f21782c70aadea2e878cc44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 30/57] fix: assigning a part of a string to itself read memory
 that was freed

---
 src/mg/alxstring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 170ff2c..9e8d255 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -176,6 +176,9 @@ public:
 
 	CstringT operator=(const char *str)
 	{
+		//str can be a part of this string
+		CResource<CBuffer<T, size_t> > keep(m_str);
+
 		size_t size = strlen(str); 
 		
 		m_str = new CBuffer<T>(/*null terminated*/static_cast<uint32_t>(++size));
@@ -193,6 +196,9 @@ public:
 
 	CstringT operator=(const wchar_t *str)
 	{
+		//str can be a part of this string
+		CResource<CBuffer<T, size_t> > keep(m_str);
+
 		size_t size = wcslen(str);
 
 		m_str = new CBuffer<T>(/*null terminated*/static_cast<uint32_t>(++size));
-- 
2.43.0


From a2e6a258f0eacfb692cb05b91a43ed35002f380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 31/57] fix: searching from a position after the end of a
 string read the memory behind it

---
 src/mg/alxstring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 9e8d255..c648d23 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -611,6 +611,7 @@ public:
 	SSIZE_T find(const TCHAR *str, uint32_t nBegin = 0) const
 	{
 		const TCHAR *sz = CstringT<T>::operator TCHAR*();
+			if(nBegin > size()) return npos;
 		const TCHAR *f = _tcsstr(&sz[nBegin], str);
 			if(f) return ST_U32(f - sz);
 
-- 
2.43.0


From 2a3d0c74c23aa7ec3b3e70bfaeeaf39e6310e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 32/57] fix: formatted text was made from the list of the
 arguments instead of the arguments, and not limited to its buffer

---
 src/mg/alxstring.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index c648d23..cce0183 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -772,22 +772,37 @@ public:
 
 	void append_format(const TCHAR *pszFmtString, ...)
 	{	
+#ifdef _WIN32
 		TCHAR szLine[2048];
                 int retVal = 0;
         
 		va_list args;
 		va_start( args, pszFmtString );
-#ifdef _WIN32
 		retVal = StringCbVPrintf(szLine, sizeof(szLine), pszFmtString, args );
-#else
-		retVal = sprintf(szLine, pszFmtString, args);
-#endif
 		
 		MGBASECHECK(retVal);
 
 		va_end( args );
 
 		operator+=(szLine);
+#else
+		va_list args;
+		va_start( args, pszFmtString );
+		int retVal = vsnprintf(NULL, 0, pszFmtString, args);
+		va_end( args );
+
+		MGBASECHECK(retVal);
+
+		CBuffer<TCHAR> line(static_cast<size_t>(retVal) + 1);
+
+		va_start( args, pszFmtString );
+		retVal = vsnprintf(line.get(), line.getSize(), pszFmtString, args);
+		va_end( args );
+
+		MGBASECHECK(retVal);
+
+		operator+=(line.get());
+#endif
 	}
 
 
-- 
2.43.0


From e2cc131ee4249a57eb230f5cad133680bb7cab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 33/57] fix: splitting by an empty separator never ended

---
 src/mg/splitter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/splitter.h b/src/mg/splitter.h
index e93888f..3d4ed04 100644
--- a/src/mg/splitter.h
+++ b/src/mg/splitter.h
@@ -65,7 +65,8 @@ public:
 			
 				loc.nBegin = pszbegin - static_cast<TCHAR*>(scontent);
 			
-			pszbegin = _tcsstr(pszbegin, sseparator);
+			//an empty separator is never found
+			pszbegin = (nLen)?_tcsstr(pszbegin, sseparator):NULL;
 			if(!pszbegin){
 				//nothing found
 					loc.nLen = _tcslen(scontent) - loc.nBegin;
-- 
2.43.0


From cfe66406e3b983a7221c89032df051af60e5f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 34/57] fix: splitting a second time kept the fields of the
 first text

---
 src/mg/splitter.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/splitter.h b/src/mg/splitter.h
index 3d4ed04..98de6f2 100644
--- a/src/mg/splitter.h
+++ b/src/mg/splitter.h
@@ -50,6 +50,7 @@ public:
 
 	void split(Cstring scontent, Cstring sseparator)
 	{
+		m_locator.clear();
 
 		if(!scontent || !sseparator)
 			return;
-- 
2.43.0


From 11af75310b107043ba7d36f0682acf58b8e9c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 35/57] fix: decoding an open brace read the memory after the
 table

---
 src/b64/src/cdecode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64/src/cdecode.cpp b/src/b64/src/cdecode.cpp
index 39a95d4..feeb8b7 100644
--- a/src/b64/src/cdecode.cpp
+++ b/src/b64/src/cdecode.cpp
@@ -34,7 +34,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From db1d97d4621edf9b53247add234329ad6c0db6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 36/57] fix: checked conversions let through negative values,
 values of 2^64 and more and NaN

---
 src/mg/core/core.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/core.h b/src/mg/core/core.h
index dd03949..b353f3b 100644
--- a/src/mg/core/core.h
+++ b/src/mg/core/core.h
@@ -180,7 +180,8 @@ inline double U64_DBL(uint64_t rhs)
 inline uint64_t DBL_U64(double rhs)
 {    
     _ASSERTE(rhs >= 0);
-	if (rhs < 0)
+	//neither negative (or not a number) nor 2^64 and more
+	if (!(rhs >= 0) || rhs >= 18446744073709551616.0)
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
@@ -265,7 +266,7 @@ inline size_t u64_ST(uint64_t rhs)
 inline uint32_t is_u32(SIGNEDSIZET rhs)
 {
 	_ASSERTE(rhs <= INT32_MAX);
-	if (rhs > INT32_MAX)
+	if (rhs < 0 || rhs > INT32_MAX)
 	{
 		throw MGCORE::mgexceptionbase(E_OVERFLOW);
 	}
-- 
2.43.0


From 18d0954f50ae7ea88b13c2dde8c3f18ac7b5ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 37/57] fix: dates given by year, month and day were 1900 years
 and a month late

---
 src/mg/core/nx/ctime.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 7409248..530626f 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -28,8 +28,8 @@ __ALX_BEGIN_NAMESPACE
 
 inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 {
-	sm.wYear = origin.tm_year;
-	sm.wMonth = origin.tm_mon;
+	sm.wYear = origin.tm_year + 1900;
+	sm.wMonth = origin.tm_mon + 1;
 	sm.wDayOfWeek = origin.tm_wday;
 	sm.wDay = origin.tm_mday;
 	sm.wHour = origin.tm_hour;
@@ -42,8 +42,8 @@ inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 
 inline void sm_to_tm(const SYSTEMTIME & origin, tm & tms)
 {
-	tms.tm_year = origin.wYear;
-	tms.tm_mon = origin.wMonth;
+	tms.tm_year = origin.wYear - 1900;
+	tms.tm_mon = origin.wMonth - 1;
 	tms.tm_wday = origin.wDayOfWeek;
 	tms.tm_mday = origin.wDay;
 	tms.tm_hour = origin.wHour;
-- 
2.43.0


From d8f4ecd0442c97d7f983d604d1495e4cb954a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 38/57] fix: the distance to a later time was a huge number

---
 src/mg/core/nx/ctime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 530626f..c62e7a7 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -180,7 +180,7 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   && UINT64_MAX != _systime.total_hnano)
 		   )
 		   {
-		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000UL;
+		   	return static_cast<int64_t>(total_hnano(_systime) - total_hnano((*psysBase))) / 10000LL;
 		   }
 		   else
 		   {
-- 
2.43.0


From 0d77a936265eb0c84b06062b95948014fb9aa1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 39/57] fix: parsing a time wrote 4 bytes into fields of 2 and
 left the rest of the time undefined

---
 src/mg/core/nx/ctime.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index c62e7a7..853c7a4 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -132,6 +132,8 @@ Ctime::Ctime(bool local)
 Ctime::Ctime(uint16_t wYear
 	, uint16_t wMonth
 	, uint16_t wDay)
+	: _local(false)
+	, _offset(0)
 {
 	_systime.wYear = wYear;
 	_systime.wMonth = wMonth;
@@ -151,19 +153,31 @@ Ctime::Ctime(const TCHAR * str_time
 	, const TCHAR * str_format)
 {
 
+	int v[7] = { 0, 0, 0, 0, 0, 0, 0 };
+
 	//_stscanf(str_time
 	//TODO: _stscanf_s
 	sscanf(str_time
 		, str_format
-		, &_systime.wYear
-		, &_systime.wMonth
-		, &_systime.wDay
-		, &_systime.wHour
-		, &_systime.wMinute
-		, &_systime.wSecond
-		, &_systime.wMilliseconds
+		, &v[0]
+		, &v[1]
+		, &v[2]
+		, &v[3]
+		, &v[4]
+		, &v[5]
+		, &v[6]
 	);
 
+	_systime.wYear = v[0];
+	_systime.wMonth = v[1];
+	_systime.wDayOfWeek = 0;
+	_systime.wDay = v[2];
+	_systime.wHour = v[3];
+	_systime.wMinute = v[4];
+	_systime.wSecond = v[5];
+	_systime.wMilliseconds = v[6];
+	_systime.total_hnano = UINT64_MAX;
+
 	_local = local;
 	_offset = 0;
 
-- 
2.43.0


From 8ff8c2543f26cc480518195c8c3aa5c8753cae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 40/57] fix: a time west of UTC was written with a huge offset,
 and the minutes of the offset were lost

---
 src/mg/core/nx/ctime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 853c7a4..77d9d62 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -375,7 +375,7 @@ Cstring Ctime::ToXml() const
 	tmp += _T(".");
 	tmp += get_MillisecondsString();
 
-	uint64_t offset = GetUTCOffset() / 60;
+	int64_t offset = GetUTCOffset();
 
 	if (!_local)
 		offset = 0;
@@ -391,12 +391,14 @@ Cstring Ctime::ToXml() const
 		}
 
 
-		if (offset < 10)
+		if (offset / 60 < 10)
 			tmp += _T("0");
 
-		tmp += offset;
+		tmp += offset / 60;
 
-		tmp += _T(":00");
+		tmp += (offset % 60 < 10) ? _T(":0") : _T(":");
+
+		tmp += offset % 60;
 	}
 	else
 	{
-- 
2.43.0


From 7f34319e532716aa00958d8f4a4d929f7c360d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 41/57] fix: the date and the fraction of the current time were
 taken at two moments

---
 src/mg/core/nx/ctime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 77d9d62..8ca9197 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -95,13 +95,13 @@ void  Ctime::ResetToNow(bool local)
 	_local = local;
 	_offset = 0;
 	
-	time_t tt = time(NULL);
-
 	timespec ts;
 
 	int r = clock_gettime(CLOCK_REALTIME, &ts);
 	MGCHECK(r);
 
+	time_t tt = ts.tv_sec;
+
 	_systime.total_hnano = ts.tv_sec * 10000000ull + ts.tv_nsec / 100ull;
 
 	tm stm;
-- 
2.43.0


From ff75d5a7d86744c0686739285acfaf31e0526f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 42/57] fix: the milliseconds of a parsed time were ignored

---
 src/mg/core/nx/ctime.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 8ca9197..724750c 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -62,7 +62,7 @@ inline uint64_t total_hnano(const SYSTEMTIME & systime)
 {
 	if(UINT64_MAX == systime.total_hnano)
 	{
-		return total_seconds(systime) * 10000000ULL;
+		return total_seconds(systime) * 10000000ULL + systime.wMilliseconds * 10000ULL;
 	}
 	else
 	{
@@ -207,16 +207,7 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 
 int64_t Ctime::TotalHNano() const
 {
-	if(UINT64_MAX == _systime.total_hnano)
-	{
-		tm tms;
-		sm_to_tm(_systime, tms);
-		return mktime(&tms) * 10000000ULL;
-	}
-	else
-	{
-		return _systime.total_hnano;
-	}
+	return total_hnano(_systime);
 }
 
 
-- 
2.43.0


From f5a18b033dced4611c01ae1972e1f03ae3c5d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 43/57] fix: the milliseconds of a time before 1970 were huge
 numbers

---
 src/mg/core/nx/ctime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 724750c..f5d33ef 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -211,7 +211,7 @@ int64_t Ctime::TotalHNano() const
 }
 
 
-int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000ULL; }
+int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000LL; }
 int64_t Ctime::AddMilliSeconds(int64_t milly_to_add) const
 {
 
@@ -327,9 +327,11 @@ Cstring Ctime::get_MillisecondsString() const
 {
 	Cstring t(_T(""));
 	
-	uint64_t mx = total_hnano(_systime);
-		 mx %= 10000000ull; //find hnano
-		 mx /= 10000ull;    //transform to milly
+	int64_t mx = TotalHNano();
+		 mx %= 10000000ll; //find hnano
+		 if (mx < 0)        //before 1970
+		 	mx += 10000000ll;
+		 mx /= 10000ll;    //transform to milly
 
 	if (mx < 100)
 		t += _T("0");
-- 
2.43.0


From c035dda949f1b263fcac4cee108416f83a79c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:58 +0000
Subject: [PATCH 44/57] fix: reading a memory stream behind its end delivered
 the memory after it

---
 src/mg/media/TBitstream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/TBitstream.h b/src/mg/media/TBitstream.h
index d49ce92..f3c4b5f 100644
--- a/src/mg/media/TBitstream.h
+++ b/src/mg/media/TBitstream.h
@@ -62,7 +62,10 @@ public:
 	{
 
 		uint32_t possible_read = to_read;
-		if (_buf_len - _current_pos < possible_read)
+		//there is nothing after the end
+		if (_current_pos >= _buf_len)
+			possible_read = 0;
+		else if (_buf_len - _current_pos < possible_read)
 			possible_read = static_cast<uint32_t>(_buf_len - _current_pos);
 
 		uint64_t pos = _current_pos;
-- 
2.43.0


From c0c1a67913e170fd010f4aa68c46808ded779c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 45/57] fix: failed reads, writes, flushes and moves of a
 synchronous file went unnoticed

---
 src/mg/core/file.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 00bada0..dccb2cf 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -238,6 +238,9 @@ public:
 
         //_ASSERTE(r == to_read);
 
+		if (r < to_read && 0 != ferror(_f))
+			MGCHECK(-1);
+
 		pcb->read_cb(_buffer.get(), ST_U32(r));
 	}
 
@@ -255,18 +258,23 @@ public:
 		//size_t r = ::fwrite(pbytes, 1, to_write, _f);
 		size_t r = write(pbytes, to_write);
 
+		if (r != to_write)
+			MGCHECK(-1);
+
 		pcb->write_cb(ST_U32(r));
 	}
 
 	virtual void flush()
 	{
-		size_t r = ::fflush(_f);
+		int r = ::fflush(_f);
+		MGCHECK(r);
 	}
 
 	virtual uint64_t get_position() const { return ::ftell(_f); }
 
 	virtual void     set_position(uint64_t rhs) {
-		::fseek(_f, static_cast<long>(rhs), SEEK_SET);
+		int r = ::fseek(_f, static_cast<long>(rhs), SEEK_SET);
+		MGCHECK(r);
 	}
 
 	void close()
-- 
2.43.0


From df18b32607849eb889ba594a6958e1a8ee64da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 46/57] fix: a copy whose source failed left its callbacks with
 a destroyed object

---
 src/mg/core/bitstream.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index dbeeceb..f601d60 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -123,9 +123,18 @@ public:
 
 		} while (0);
 
-		source.read(chunk, this);
+		try
+		{
+			source.read(chunk, this);
+		}
+		catch (...)
+		{
+			//this one is not on its way
+			auto_lock l(_lock);
+			_read--;
 
-		
+			throw;
+		}
 	}
 
 	virtual void read_cb(const unsigned char * p_val, uint32_t read) override
@@ -187,19 +196,29 @@ void copy_stream(
 
 	///ccs._write_event.reset();
 
-	while (!source.eof() && (endpos == 0 || endpos > source.get_position()))
+	try
 	{
+		while (!source.eof() && (endpos == 0 || endpos > source.get_position()))
+		{
 	
-		ccs.wait_read();
+			ccs.wait_read();
 
-		//not after the end
-		if (endpos != 0 && endpos - source.get_position() < chunk)
-			chunk = static_cast<uint32_t>(endpos - source.get_position());
+			//not after the end
+			if (endpos != 0 && endpos - source.get_position() < chunk)
+				chunk = static_cast<uint32_t>(endpos - source.get_position());
 
-		FDBGC0(COPY_STREAM_DEBUG, "read");
+			FDBGC0(COPY_STREAM_DEBUG, "read");
 
-		ccs.read(source, chunk);
+			ccs.read(source, chunk);
 		
+		}
+	}
+	catch (...)
+	{
+		//the callbacks on their way use ccs
+		ccs.wait_end();
+
+		throw;
 	}
 
 	
-- 
2.43.0


From 2feed76debf7395c71052eb02abd474e15a5dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:04 +0000
Subject: [PATCH 47/57] fix: an option letter without arguments is given none,
 not those of the option before

---
 src/mg/cmdline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index f1cb7a9..a160f80 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -80,6 +80,7 @@ public:
 										TCHAR  *psz = argv[i] + 1;
 										m_cmd = *psz;
 										m_cnt = 0;
+										m_argvs = 0;
 										continue;
 								}
 
-- 
2.43.0


From cca98aac22bfcad5bd399c7487f734dcd4434afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:14 +0000
Subject: [PATCH 48/57] fix: the value of a command starts at the first
 separator, whichever of the two it is

---
 src/mg/cmdline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index a160f80..9735e4e 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -431,8 +431,9 @@ public:
 			if(Equals(command.subString(0, 1), _T("-")))
 			{
 				int x = command.find(_T(":"));
-				if(x < 0)
-					x = command.find(_T("="));
+				int e = command.find(_T("="));
+				if(x < 0 || (0 <= e && e < x))
+					x = e;
 
 				//check for --command
 				int ss = 1;
-- 
2.43.0


From 5086d7d8bc1d7948afc03ec162bd1c008d4b655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:34 +0000
Subject: [PATCH 49/57] fix: a switch given without a value, by name or by
 shortcut, reads as true

---
 src/mg/cmdline.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index 9735e4e..5e0e3f9 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -447,13 +447,6 @@ public:
 				if(x < 0)
 				{
 					name  = command.subString(ss, command.len() - ss);
-
-					if( _commands.find(name) != _commands.end()
-					    && _commands[name].t == type_bool)
-				    {
-						
-						value = _T("T");
-				    }
 				}
 				else
 				{
@@ -488,6 +481,11 @@ public:
 						_commands[name] = item;
 					}
 				}				
+
+				//the text that reads as true
+				if(x < 0 && _commands[name].t == type_bool)
+					value = _T("true");
+
 				//TODO: VALIDATE TYPE	
 				_commands[name].psz_value.push_back(value);
 			}
-- 
2.43.0


From 7163a6d1f67089a6c9ad6a628bb29268ba6a2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:44 +0000
Subject: [PATCH 50/57] fix: a command that was not declared does not answer to
 the shortcut 0

---
 src/mg/cmdline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index 5e0e3f9..8dd3e6c 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -477,7 +477,7 @@ public:
 
 					if(add)
 					{
-						console_item item = {type_string, false, _T("unclussified parameter"), '0'};
+						console_item item = {type_string, false, _T("unclussified parameter"), 0x0};
 						_commands[name] = item;
 					}
 				}				
-- 
2.43.0


From 86437b5a232e9ef998fdf53670f14ce25ed418f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:14 +0000
Subject: [PATCH 51/57] fix: an item longer than any queue can be was written
 past the memory of the queue

---
 src/mg/media/fixed_queue.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mg/media/fixed_queue.h b/src/mg/media/fixed_queue.h
index 2a2cea0..7a50432 100644
--- a/src/mg/media/fixed_queue.h
+++ b/src/mg/media/fixed_queue.h
@@ -315,6 +315,15 @@ public:
 
 		_ASSERTE(ph->start_offset >= 0);
 
+		//longer than any queue can be
+		if(length > static_cast<unsigned int>(INT32_MAX - get_queue_item_header_size()))
+		{
+			if(!return_on_failure)
+				ALXTHROW_T(_T("NOT ENOUGH STORAGE IS AVAILABLE"));
+
+			return false;
+		}
+
 		size_type space = get_queue_item_header_size() + length;
 
 		size_type begin_space = get_tail_space() + get_head_space();
-- 
2.43.0


From d31de5331d38e7a97c7cad53eb96fe97ca015991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:45 +0000
Subject: [PATCH 52/57] fix: an item put in a queue that grew at the second
 attempt overwrote the first ones

---
 src/mg/media/fixed_queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/fixed_queue.h b/src/mg/media/fixed_queue.h
index 7a50432..3d09fc2 100644
--- a/src/mg/media/fixed_queue.h
+++ b/src/mg/media/fixed_queue.h
@@ -408,7 +408,8 @@ public:
 
 			}
 
-			
+			//the space that was made can be behind the last item
+			tail = (get_tail_space() >= space);
 		}
 
 		queue_item_header * phi = NULL;
-- 
2.43.0


From 21e305ff9b7c02f6de1f29832f7911379c51ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:52 +0000
Subject: [PATCH 53/57] fix: a queue without items that could not grow deleted
 one all the same

---
 src/mg/media/media_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/media_queue.h b/src/mg/media/media_queue.h
index df3c8d9..ff9d18a 100644
--- a/src/mg/media/media_queue.h
+++ b/src/mg/media/media_queue.h
@@ -132,7 +132,7 @@ protected:
 					   cfixed_queue<T>::_location_ = owner._location_;
 						owner._location_ = NULL;
 
-					  if(failed_to_grow_should_drop())
+					  if(failed_to_grow_should_drop() && cfixed_queue<T>::size())
 					  {
 						    //ok there nothing todo but drop items
 							 cfixed_queue<T>::delete_item();
-- 
2.43.0


From 4d3eea64ec353c42eb083761b13cb3643eeff5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:17 +0000
Subject: [PATCH 54/57] fix: joining computed a second time used the
 differences of the first

---
 src/mg/media/MediaJoin.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/MediaJoin.h b/src/mg/media/MediaJoin.h
index ac19a51..f6a16d5 100644
--- a/src/mg/media/MediaJoin.h
+++ b/src/mg/media/MediaJoin.h
@@ -54,6 +54,9 @@ public:
 		_ASSERTE(_streams_end.size() == _streams_count);
 		_ASSERTE(0 < _streams_count);
 
+		//what an earlier call found
+		_streams_diff.clear();
+
 		int64_t max_end(0);
 		int64_t min_start(INT64_MAX);
 
-- 
2.43.0


From 9fbdb61160483ff64bb7c9648e4d210e876809a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:23 +0000
Subject: [PATCH 55/57] fix: a random access packet one byte short of full
 carried bytes after the payload

---
 src/mg/media/tswrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 7d9c5d5..de1763f 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -474,7 +474,7 @@ public:
 
 			first_adaptation = true;
 
-			if(1 == diff)
+			if(1 == diff && !random_access_indicator)
 			{
 				af.adaptation_field_length = 0;
 				
-- 
2.43.0


From a27e342653a5bd92d4b7385f599d0ba775c59005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:30 +0000
Subject: [PATCH 56/57] fix: the length of a packet header was cut off when
 only the payload fits in it

---
 src/mg/media/tswrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index de1763f..6cc823f 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -159,7 +159,7 @@ protected:
 		pes.PES_packet_length += pes.PES_header_data_length;
 		pes.PES_packet_length += body_size;
 
-		if(!body_size || MAX_PES_SIZE <= body_size)
+		if(!body_size || MAX_PES_SIZE <= body_size || MAX_PES_SIZE < pes.PES_packet_length)
 			pes.PES_packet_length = 0; //no length packet
 
 	}
-- 
2.43.0


From 4c36bd593eced461aa54aea627944acc5b74353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:36 +0000
Subject: [PATCH 57/57] fix: the last byte of a NAL unit was dropped when it
 was 3

---
 src/mg/media/h264nal.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/media/h264nal.h b/src/mg/media/h264nal.h
index ef38584..6369033 100644
--- a/src/mg/media/h264nal.h
+++ b/src/mg/media/h264nal.h
@@ -76,9 +76,6 @@ protected:
 		{
 			_ASSERTE((idx + 1) >= NumBytesInRBSP);
 
-			if(idx + 1 == NumBytesInNALunit && 0x03 == bit_stream.nextbits(8))
-				break;
-			
 			if( (idx + 2) < NumBytesInNALunit  && 0x000003 == bit_stream.nextbits(24))
 			{
 				p_nal[NumBytesInRBSP++] = 0x00;
-- 
2.43.0

