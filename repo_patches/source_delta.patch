From 5217125d5c04fb0d7c043e13d66613c46061416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 01/79] fix: release the semaphore mutex when the clock cannot
 be read in a timed wait

---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7599368..88f5992 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -411,7 +411,13 @@ namespace CubicleSoft
 			{
 				struct timespec TempTime;
 
-				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)  return false;
+				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)
+				{
+					pthread_mutex_unlock(UnixSemaphore.MxMutex);
+
+					return false;
+				}
+
 				TempTime.tv_sec += Wait / 1000;
 				TempTime.tv_nsec += (Wait % 1000) * 1000000;
 				TempTime.tv_sec += TempTime.tv_nsec / 1000000000;
-- 
2.43.0


From 9dbeaa1f86f4272225a065a66e92a95980c5310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 02/79] fix: do not clear past the end of the mapping when
 re-initializing named shared memory

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 88f5992..6d4892b 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -280,7 +280,7 @@ namespace CubicleSoft
 							else
 							{
 								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size);
+								memset(MemPtr, 0, Size - StartPos);
 
 								Result = 0;
 							}
-- 
2.43.0


From 9d42690027783d47eb39cbad11b6af27c99bb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 03/79] fix: keep named shared memory locked until the rebuilt
 object is ready

---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 6d4892b..306c014 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -287,7 +287,8 @@ namespace CubicleSoft
 
 							RefCountPtr[0]++;
 
-							pthread_mutex_unlock(MutexPtr);
+							// Like a newly created object, a rebuilt object stays locked until UnixNamedMemReady() is called.
+							if (Result == 1)  pthread_mutex_unlock(MutexPtr);
 						}
 
 						close(fp);
-- 
2.43.0


From bf08d675be6887ffaf42384aaeed1db23051b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 04/79] fix: unmap the whole named shared memory mapping

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 306c014..1b947ac 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -321,7 +321,7 @@ namespace CubicleSoft
 			if (RefCountPtr[0])  RefCountPtr[0]--;
 			pthread_mutex_unlock(MutexPtr);
 
-			munmap(MemPtr, AlignUnixSize(1) + AlignUnixSize(sizeof(pthread_mutex_t)) + AlignUnixSize(sizeof(std::uint32_t)) + Size);
+			munmap(MemPtr, AlignUnixSize(AlignUnixSize(1) + AlignUnixSize(sizeof(pthread_mutex_t)) + AlignUnixSize(sizeof(std::uint32_t)) + Size));
 		}
 
 
-- 
2.43.0


From 24152fe007b4ebad9233bb57b06790ed87ee58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:50 +0000
Subject: [PATCH 05/79] fix: Mutex::Create() leaked an unlocked previous object
 and left a locked named object locked

---
 sync/sync_mutex.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index ee4873f..99c335f 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -157,16 +157,9 @@ namespace CubicleSoft
 			{
 				if (MxOwnerID == Util::GetCurrentThreadID())
 				{
-					if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
-					else
-					{
-						Util::FreeUnixSemaphore(MxPthreadMutex);
+					// Release the mutex so that a named mutex doesn't stay locked for other processes.
+					Util::ReleaseUnixSemaphore(MxPthreadMutex, NULL);
 
-						delete[] MxMem;
-					}
-
-					MxNamed = false;
-					MxMem = NULL;
 					MxCount = 0;
 					MxOwnerID = 0;
 				}
@@ -178,6 +171,20 @@ namespace CubicleSoft
 				}
 			}
 
+			// Release the previous object (if any), whether or not it was locked.
+			if (MxMem != NULL)
+			{
+				if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
+				else
+				{
+					Util::FreeUnixSemaphore(MxPthreadMutex);
+
+					delete[] MxMem;
+				}
+
+				MxMem = NULL;
+			}
+
 			size_t Pos, TempSize = Util::GetUnixSemaphoreSize();
 			MxNamed = (Name != NULL);
 			int Result = Util::InitUnixNamedMem(MxMem, Pos, "/Sync_Mutex", Name, TempSize);
-- 
2.43.0


From dcfcec5e0cb212aa75002bd494724c1aa29bb964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:50 +0000
Subject: [PATCH 06/79] fix: Mutex::Lock() on a mutex that has not been created
 fails instead of using uninitialized pointers

---
 sync/sync_mutex.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index 99c335f..2f57e91 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -215,6 +215,13 @@ namespace CubicleSoft
 		{
 			if (pthread_mutex_lock(&MxPthreadCritSection) != 0)  return false;
 
+			if (MxMem == NULL)
+			{
+				pthread_mutex_unlock(&MxPthreadCritSection);
+
+				return false;
+			}
+
 			// Check to see if this mutex is already owned by the calling thread.
 			if (MxOwnerID == Util::GetCurrentThreadID())
 			{
-- 
2.43.0


From fcc3ddb70278203cf935aea9c22dc355aa554834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:50 +0000
Subject: [PATCH 07/79] fix: Semaphore::Unlock() reports a failed release

---
 sync/sync_semaphore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_semaphore.cpp b/sync/sync_semaphore.cpp
index 8b8d0d5..baf82a6 100644
--- a/sync/sync_semaphore.cpp
+++ b/sync/sync_semaphore.cpp
@@ -124,7 +124,7 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			std::uint32_t Count;
-			Util::ReleaseUnixSemaphore(MxPthreadSemaphore, &Count);
+			if (!Util::ReleaseUnixSemaphore(MxPthreadSemaphore, &Count))  return false;
 			if (PrevCount != NULL)  *PrevCount = (int)Count;
 
 			return true;
-- 
2.43.0


From a77aaf37280c079f83e0045d13abe9bbc4c5514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 08/79] fix: reader/writer lock timeouts are in milliseconds

---
 sync/sync_readwritelock.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index a759d8f..65206cc 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -72,14 +72,14 @@ namespace CubicleSoft
 			if (MxWinRSemaphore == NULL || MxWinRSemMutex == NULL || MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Acquire the semaphore mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemMutex, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -88,7 +88,7 @@ namespace CubicleSoft
 			}
 
 			// Acquire the semaphore.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemaphore, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinRSemMutex, 1, NULL);
@@ -121,14 +121,14 @@ namespace CubicleSoft
 			if (MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRWaitEvent, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -262,13 +262,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Acquire the counter mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
@@ -302,13 +302,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
-- 
2.43.0


From ee7b1ac4acba8b371b4c16ae4556d70c5d43cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 09/79] fix: SharedMem::First() is reset when the object is
 created again

---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index fdfa1c2..a557dbe 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -87,6 +87,7 @@ namespace CubicleSoft
 
 			MxMemInternal = NULL;
 			MxMem = NULL;
+			MxFirst = false;
 
 			size_t Pos, TempSize = Size;
 			int Result = Util::InitUnixNamedMem(MxMemInternal, Pos, "/Sync_SharedMem", Name, TempSize);
-- 
2.43.0


From 2fa332ecd5daa72accd3261a8991932cf468f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 10/79] fix: TLS allocations return NULL when the system is out
 of memory

---
 sync/sync_tls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a484111..81bb9cd 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -78,6 +78,8 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos)
 			{
 				Data = ::malloc(Size);
+				if (Data == NULL)  return NULL;
+
 				Data = (std::uint8_t *)Data + 1;
 			}
 			else
@@ -124,12 +126,15 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos && MainPtr->GetSize() <= Pos2)
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
+				if (Data2 == NULL)  return NULL;
+
 				Data2 = (std::uint8_t *)Data2 + 1;
 			}
 			else
 			{
 				// Allocate data.
 				Data2 = malloc(NewSize);
+				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
 				memcpy(Data2, Data, (1 << Pos2));
-- 
2.43.0


From 565ab6d244f5505abb2724adc9d6f03dd9e8c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 11/79] fix: TLS::realloc() records the new size of a large
 allocation

---
 sync/sync_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 81bb9cd..a823927 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -129,6 +129,9 @@ namespace CubicleSoft
 				if (Data2 == NULL)  return NULL;
 
 				Data2 = (std::uint8_t *)Data2 + 1;
+
+				// Store the new position.
+				((std::uint8_t *)Data2)[-1] = (std::uint8_t)Pos;
 			}
 			else
 			{
-- 
2.43.0


From dbc208b2188cb2be376d278bba362e8daa8fd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 12/79] fix: TLS allocation sizes of 2GB and up do not overflow
 an int

---
 sync/sync_tls.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a823927..21e2434 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -140,7 +140,7 @@ namespace CubicleSoft
 				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
-				memcpy(Data2, Data, (1 << Pos2));
+				memcpy(Data2, Data, ((size_t)1 << Pos2));
 
 				// Free the previous object.
 				free(Data, Cache);
@@ -154,7 +154,7 @@ namespace CubicleSoft
 			if (Data == NULL)  return NULL;
 
 			// Allocate the appropriate size buffer.
-			size_t Size = (size_t)(1 << ((size_t)((std::uint8_t *)Data)[-1]));
+			size_t Size = (size_t)1 << ((size_t)((std::uint8_t *)Data)[-1]);
 			void *Data2 = ::malloc(Size);
 			if (Data2 == NULL)  return NULL;
 
@@ -200,7 +200,7 @@ namespace CubicleSoft
 			else
 			{
 				Nodes = (*MainPtr)[Num].GetSize();
-				Size = (size_t)(1 << Num);
+				Size = (size_t)1 << Num;
 				if (Size < sizeof(QueueNode<char>))  Size = sizeof(QueueNode<char>);
 				Size *= Nodes;
 			}
-- 
2.43.0


From 9669b7cb421a890e394820a09a243350d8c71936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 13/79] fix: TLS::MixedVar copy constructor does not free an
 uninitialized pointer

---
 sync/sync_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 21e2434..2851d2a 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -265,7 +265,7 @@ namespace CubicleSoft
 		}
 
 		// Copy constructor.
-		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar)
+		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar) : MxStr(NULL)
 		{
 			MxTLS = TempVar.MxTLS;
 
-- 
2.43.0


From d95a835f3d4d8754045b8ef5d4e10186494f9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 14/79] fix: TLS::MixedVar assignment frees the current string
 with its own allocator

---
 sync/sync_tls.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 2851d2a..01b93cf 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -286,16 +286,14 @@ namespace CubicleSoft
 		{
 			if (this != &TempVar)
 			{
+				// Release the current string to the allocator that it came from.
+				if (MxStr != NULL)  MxTLS->free(MxStr);
+				MxStr = NULL;
+				MxStrPos = 0;
+
 				MxTLS = TempVar.MxTLS;
 
 				if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-				else
-				{
-					MxTLS->free(MxStr);
-
-					MxStr = NULL;
-					MxStrPos = 0;
-				}
 
 				MxMode = TempVar.MxMode;
 				MxInt = TempVar.MxInt;
-- 
2.43.0


From 3c921a8334ae58e0e0a48956fb4a559d132c92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 15/79] fix: TLS::MixedVar SetSize() and ReplaceData() on an
 empty variable do not write through NULL

---
 sync/sync_tls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 01b93cf..d3a6552 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -411,7 +411,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::SetSize(size_t pos)
 		{
-			if (MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
+			if (MxStr == NULL || MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
 
 			MxStrPos = pos;
 			MxStr[MxStrPos] = '\0';
@@ -421,6 +421,8 @@ namespace CubicleSoft
 		{
 			size_t Num;
 
+			if (MxStr == NULL)  return 0;
+
 			if (srcsize < destsize)
 			{
 				char *Result;
-- 
2.43.0


From 9299083f739be8903573a12f06536e6d7249d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 16/79] fix: converting the smallest 64-bit integer to a string
 does not overflow

---
 convert/convert_int.cpp      | 4 ++--
 json/json_serializer.cpp     | 2 +-
 sync/sync_tls.cpp            | 2 +-
 templates/static_mixed_var.h | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 1712940..0e8e507 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -50,7 +50,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return ToString(Result + 1, Size - 1, (std::uint64_t)-Num, Separator, Radix);
+			return ToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, Separator, Radix);
 		}
 
 		bool Int::ToFilesizeString(char *Result, size_t Size, std::uint64_t Num, size_t NumFrac, char NumSeparator, char DecimalSeparator, char UnitSeparator, const char *BytesUnit)
@@ -220,7 +220,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return ToFilesizeString(Result + 1, Size - 1, (std::uint64_t)-Num, NumFrac, NumSeparator, DecimalSeparator, UnitSeparator, BytesUnit);
+			return ToFilesizeString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, NumFrac, NumSeparator, DecimalSeparator, UnitSeparator, BytesUnit);
 		}
 	}
 }
diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 231a791..65db46b 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -429,7 +429,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num);
+			return IntToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num);
 		}
 	}
 }
diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index d3a6552..6887bd5 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -482,7 +482,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num, Radix);
+			return IntToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, Radix);
 		}
 	}
 }
diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index d1d060c..953f8ae 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -310,7 +310,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num, Radix);
+			return IntToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, Radix);
 		}
 	};
 }
-- 
2.43.0


From c692b4637d0173fff84b33bef9d7ab9f7ef4ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 17/79] fix: fractional digits of file sizes do not overflow

---
 convert/convert_int.cpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 0e8e507..a8422c0 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -161,27 +161,18 @@ namespace CubicleSoft
 
 			if (NumFrac)
 			{
-				if (x < NumFrac + 2)  return false;
+				if (x < 2 || x - 2 < NumFrac)  return false;
 
+				// Long division, one digit at a time, so that large units don't overflow.
+				x -= NumFrac;
 				Extra = Num % Divider;
-				for (x2 = 0; x2 < NumFrac; x2++)  Extra *= 10ULL;
-				Extra /= Divider;
-
-				while (Extra && NumFrac && x)
+				for (x2 = 0; x2 < NumFrac; x2++)
 				{
-					Result[--x] = (char)(Extra % 10) + '0';
-					Extra /= 10;
-					NumFrac--;
+					Extra *= 10ULL;
+					Result[x + x2] = (char)(Extra / Divider) + '0';
+					Extra %= Divider;
 				}
 
-				while (NumFrac && x)
-				{
-					Result[--x] = '0';
-					NumFrac--;
-				}
-
-				if (Extra || !x)  return false;
-
 				Result[--x] = DecimalSeparator;
 
 				if (!x)  return false;
-- 
2.43.0


From 459d34f5b9ddcb3939ace6f31a3ca3476a766870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 18/79] fix: mixed variables reject an invalid radix

---
 sync/sync_tls.cpp            | 2 +-
 templates/static_mixed_var.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 6887bd5..32ea32c 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -452,7 +452,7 @@ namespace CubicleSoft
 		// Swiped and slightly modified from Int::ToString().
 		bool TLS::MixedVar::IntToString(char *Result, size_t Size, std::uint64_t Num, size_t Radix)
 		{
-			if (Size < 2)  return false;
+			if (Size < 2 || Radix < 2 || Radix > 36)  return false;
 
 			size_t x = Size, z;
 
diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 953f8ae..409a7a1 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -280,7 +280,7 @@ namespace CubicleSoft
 		// Swiped and slightly modified from Int::ToString().
 		static bool IntToString(char *Result, size_t Size, std::uint64_t Num, size_t Radix = 10)
 		{
-			if (Size < 2)  return false;
+			if (Size < 2 || Radix < 2 || Radix > 36)  return false;
 
 			size_t x = Size, z;
 
-- 
2.43.0


From 20fc0e3d1e3d04ef6df9130cda38513131b5db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 19/79] fix: JSON size calculation looks at every character of
 a sized string

---
 json/json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 65db46b..40694bb 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -315,6 +315,7 @@ namespace CubicleSoft
 				}
 
 				Result++;
+				Val++;
 				Size--;
 			}
 
-- 
2.43.0


From 95b0b6759eff2d5555890dc97d25318407e8b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 20/79] fix: JSON strings keep their slashes when slashes are
 not escaped

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 40694bb..6c6a4be 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -358,7 +358,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
@@ -382,7 +382,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
-- 
2.43.0


From 85e34185b0e35c130637050ccef8cf44d3be1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 21/79] fix: JSON strings escape all control characters

---
 json/json_serializer.cpp | 39 +++++++++++++++++++++++++++++++++++++--
 json/json_serializer.h   |  1 +
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 6c6a4be..44345e9 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -275,6 +275,13 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						if ((unsigned char)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -312,6 +319,13 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						if ((unsigned char)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -364,7 +378,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 			}
 
@@ -388,7 +402,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 
 				Size--;
@@ -398,6 +412,27 @@ namespace CubicleSoft
 			MxBuffer[MxBufferPos] = '\0';
 		}
 
+		// Other control characters are not allowed in JSON strings.
+		void Serializer::InternalAppendChar(char Val)
+		{
+			unsigned char TempVal = (unsigned char)Val;
+
+			if (TempVal < 0x20)
+			{
+				MxBuffer[MxBufferPos++] = '\\';
+				MxBuffer[MxBufferPos++] = 'u';
+				MxBuffer[MxBufferPos++] = '0';
+				MxBuffer[MxBufferPos++] = '0';
+				MxBuffer[MxBufferPos++] = (TempVal < 0x10 ? '0' : '1');
+				TempVal &= 0x0F;
+				MxBuffer[MxBufferPos++] = (TempVal < 10 ? TempVal + '0' : TempVal - 10 + 'A');
+			}
+			else
+			{
+				MxBuffer[MxBufferPos++] = TempVal;
+			}
+		}
+
 		// Swiped and slightly modified from Int::ToString().
 		bool Serializer::IntToString(char *Result, size_t Size, std::uint64_t Num)
 		{
diff --git a/json/json_serializer.h b/json/json_serializer.h
index f07ac85..d6f8a58 100644
--- a/json/json_serializer.h
+++ b/json/json_serializer.h
@@ -85,6 +85,7 @@ namespace CubicleSoft
 			bool InternalAppendNextPrefix(const char *Key, size_t ExtraSpace);
 			void InternalAppendStr(const char *Val);
 			void InternalAppendStr(const char *Val, size_t Size);
+			void InternalAppendChar(char Val);
 			static bool IntToString(char *Result, size_t Size, std::uint64_t Num);
 			static bool IntToString(char *Result, size_t Size, std::int64_t Num);
 
-- 
2.43.0


From f88993ec043a325a292c69b9ef2d980012b6cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 22/79] fix: JSON numbers are not truncated and are always
 valid

---
 json/json_serializer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 44345e9..1c86617 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -4,6 +4,7 @@
 #define _CRT_SECURE_NO_WARNINGS
 
 #include "json_serializer.h"
+#include <cmath>
 #include <cstdio>
 
 namespace CubicleSoft
@@ -171,7 +172,11 @@ namespace CubicleSoft
 
 		bool Serializer::AppendDouble(const char *Key, const double Val, const size_t Precision)
 		{
-			char TempBuffer[100];
+			// JSON has no representation for infinity and NaN.
+			if (!std::isfinite(Val))  return false;
+
+			// Large enough for every significant digit of any double.
+			char TempBuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
 			TempBuffer[sizeof(TempBuffer) - 1] = '\0';
-- 
2.43.0


From 73903fde6b26d523cd5c1b4efe65a6766bcc8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 23/79] fix: JSON serializer without a buffer fails instead of
 writing through NULL or past the end

---
 json/json_serializer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 1c86617..b4dc551 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -28,9 +28,9 @@ namespace CubicleSoft
 
 		void Serializer::SetBuffer(std::uint8_t *Buffer, size_t BufferSize)
 		{
-			MxBuffer = Buffer;
+			MxBuffer = (BufferSize ? Buffer : NULL);
 			MxBufferPos = 0;
-			MxBufferSize = BufferSize - 1;
+			MxBufferSize = (BufferSize ? BufferSize - 1 : 0);
 		}
 
 		bool Serializer::StartObject(const char *Key)
@@ -195,7 +195,7 @@ namespace CubicleSoft
 
 		bool Serializer::AppendStr(const char *Key, const char *Val)
 		{
-			if (Val == NULL)  return false;
+			if (Val == NULL || MxBuffer == NULL)  return false;
 
 			size_t x = CalculateStrSize(Val, false);
 			if ((MxModes[MxModeDepth] != ModeStr && !InternalAppendNextPrefix(Key, x)) || (MxModes[MxModeDepth] == ModeStr && MxBufferPos + x > MxBufferSize))  return false;
@@ -207,7 +207,7 @@ namespace CubicleSoft
 
 		bool Serializer::AppendStr(const char *Key, const char *Val, const size_t Size)
 		{
-			if (Val == NULL)  return false;
+			if (Val == NULL || MxBuffer == NULL)  return false;
 
 			size_t x = CalculateStrSize(Val, Size, false);
 			if ((MxModes[MxModeDepth] != ModeStr && !InternalAppendNextPrefix(Key, x)) || (MxModes[MxModeDepth] == ModeStr && MxBufferPos + x > MxBufferSize))  return false;
@@ -219,7 +219,7 @@ namespace CubicleSoft
 
 		bool Serializer::Append(const char *Val, size_t Size)
 		{
-			if (MxBufferPos + Size > MxBufferSize || Val == NULL)  return false;
+			if (MxBuffer == NULL || Size > MxBufferSize - MxBufferPos || Val == NULL)  return false;
 
 			while (Size)
 			{
-- 
2.43.0


From 7742f5db8c2340a22c10ba22cd7467209049c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 24/79] fix: JSON serializer always has room for the root mode

---
 json/json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index b4dc551..a3ead37 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -12,7 +12,7 @@ namespace CubicleSoft
 	namespace JSON
 	{
 		Serializer::Serializer(const bool EscapeSlashes, const char *KeySplitter, const char *ValSplitter, size_t MaxDepth)
-			: MxModes(MaxDepth), MxModeDepth(0), MxBuffer(NULL), MxBufferPos(0), MxBufferSize(0), MxEscapeSlashes(EscapeSlashes), MxKeySplitter(KeySplitter), MxValSplitter(ValSplitter)
+			: MxModes(MaxDepth > 0 ? MaxDepth : 1), MxModeDepth(0), MxBuffer(NULL), MxBufferPos(0), MxBufferSize(0), MxEscapeSlashes(EscapeSlashes), MxKeySplitter(KeySplitter), MxValSplitter(ValSplitter)
 		{
 			MxModes[0] = ModeRootFirst;
 			MxKeySplitterLen = strlen(KeySplitter);
-- 
2.43.0


From 9db32fad65da892294c5c50eac5215bbfbffd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 25/79] fix: CSPRNG::GetBytes() handles read errors and short
 reads instead of looping forever

---
 security/security_csprng.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index 10f2e0c..f81f23b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -49,15 +49,18 @@ namespace CubicleSoft
 
 			ssize_t BytesRead;
 
-			do
+			while (Size)
 			{
 				do
 				{
 					BytesRead = read(MxURandom, Result, Size);
 				} while (BytesRead < 0 && errno == EINTR);
-			} while (BytesRead != (ssize_t)Size);
 
-			if (BytesRead < 0)  return false;
+				if (BytesRead <= 0)  return false;
+
+				Result += BytesRead;
+				Size -= (size_t)BytesRead;
+			}
 
 			return true;
 		}
-- 
2.43.0


From aae10ac0badef024d947e111b3ce8b24e4468f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 26/79] fix: CSPRNG does not close a device that was never
 opened

---
 security/security_csprng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index f81f23b..01b8d8b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -40,7 +40,7 @@ namespace CubicleSoft
 
 		CSPRNG::~CSPRNG()
 		{
-			close(MxURandom);
+			if (MxURandom >= 0)  close(MxURandom);
 		}
 
 		bool CSPRNG::GetBytes(std::uint8_t *Result, size_t Size)
-- 
2.43.0


From 0208c9469229b5ce9236967e31daf72a94a222fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 27/79] fix: calling a void shared library function loads the
 function on first use

---
 templates/shared_lib_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/shared_lib_util.h b/templates/shared_lib_util.h
index 2a19779..3df905a 100644
--- a/templates/shared_lib_util.h
+++ b/templates/shared_lib_util.h
@@ -22,7 +22,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	FARPROC FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
@@ -84,7 +84,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	void *FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
-- 
2.43.0


From 1e2b1821f21cf0e591d18948bf5d6de433a9053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 28/79] fix: a shared library module can not be copied and
 closed twice

---
 templates/shared_lib.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/templates/shared_lib.h b/templates/shared_lib.h
index 4a01781..c9f053c 100644
--- a/templates/shared_lib.h
+++ b/templates/shared_lib.h
@@ -41,6 +41,10 @@ namespace CubicleSoft
 			}
 
 		private:
+			// Deny copy constructor and assignment operator.  Use a (smart) pointer instead.
+			ModuleUtil(const ModuleUtil &);
+			ModuleUtil &operator=(const ModuleUtil &);
+
 			const char *MxFilename;
 			HMODULE MxModulePtr;
 		};
@@ -147,6 +151,10 @@ namespace CubicleSoft
 			}
 
 		private:
+			// Deny copy constructor and assignment operator.  Use a (smart) pointer instead.
+			ModuleUtil(const ModuleUtil &);
+			ModuleUtil &operator=(const ModuleUtil &);
+
 			const char *MxFilename;
 			void *MxModulePtr;
 		};
-- 
2.43.0


From 0c52fbd1251c41838bbceec6d79093f0ab7b5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 29/79] fix: QueueNoCopy can not be copied

---
 templates/detachable_queue_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/detachable_queue_util.h b/templates/detachable_queue_util.h
index 053617b..544a816 100644
--- a/templates/detachable_queue_util.h
+++ b/templates/detachable_queue_util.h
@@ -40,7 +40,7 @@ public:
 
 #ifdef CUBICLESOFT_DETACHABLE_QUEUE_NOCOPYASSIGN
 private:
-	QueueNoCopy(const Queue<T> &);
+	QueueNoCopy(const QueueNoCopy<T> &);
 	QueueNoCopy<T> &operator=(const QueueNoCopy<T> &);
 
 public:
-- 
2.43.0


From 8294221d8e440eb8f926515d4fdbbd67739558ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 30/79] fix: CacheNoCopy copy constructor and assignment
 operator are private

---
 templates/cache_util.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templates/cache_util.h b/templates/cache_util.h
index 0fae38c..c997084 100644
--- a/templates/cache_util.h
+++ b/templates/cache_util.h
@@ -32,8 +32,11 @@ public:
 	}
 
 #ifdef CUBICLESOFT_CACHE_NOCOPYASSIGN
+private:
 	CacheNoCopy(const CacheNoCopy<XKey, XValue> &TempCache);
 	CacheNoCopy<XKey, XValue> &operator=(const CacheNoCopy<XKey, XValue> &TempCache);
+
+public:
 #else
 	Cache(const Cache<XKey, XValue> &TempCache)
 	{
-- 
2.43.0


From 7c27e2b614eded8083d9da6089b5c70d3ce0e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 31/79] fix: assigning a differently sized Static2DArray
 allocates storage

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 88f5685..7f10937 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -53,7 +53,7 @@ namespace CubicleSoft
 					Height = TempArray.Height;
 
 					size_t y = Width * Height;
-					if (y)
+					if (!y)
 					{
 						baseptr = NULL;
 						ptr = NULL;
-- 
2.43.0


From b309702996d61ce15b40b1e88ed71ea58d548470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 32/79] fix: Static2DArray comparison compares elements

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 7f10937..6b01f96 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -89,7 +89,7 @@ namespace CubicleSoft
 			if (Width != TempArray.Width || Height != TempArray.Height)  return false;
 
 			size_t x, y = Width * Height;
-			for (x = 0; x < y && baseptr[x] == TempArray.ptr[x]; x++);
+			for (x = 0; x < y && baseptr[x] == TempArray.baseptr[x]; x++);
 			if (x < y)  return false;
 
 			return true;
-- 
2.43.0


From b231ea509077aa2f846adc83f1fc026bc8040ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 33/79] fix: appending a list or queue to itself does not lose
 its nodes

---
 templates/detachable_list_util.h  | 2 +-
 templates/detachable_queue_util.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_list_util.h b/templates/detachable_list_util.h
index 24ac561..269b5cb 100644
--- a/templates/detachable_list_util.h
+++ b/templates/detachable_list_util.h
@@ -263,7 +263,7 @@ public:
 	void DetachAllAndAppend(List<T> &TempList)
 #endif
 	{
-		if (TempList.FirstNode == NULL)  return;
+		if (&TempList == this || TempList.FirstNode == NULL)  return;
 
 		if (LastNode != NULL)
 		{
diff --git a/templates/detachable_queue_util.h b/templates/detachable_queue_util.h
index 544a816..7b8c357 100644
--- a/templates/detachable_queue_util.h
+++ b/templates/detachable_queue_util.h
@@ -178,7 +178,7 @@ public:
 	void DetachAllAndAppend(Queue<T> &TempQueue)
 #endif
 	{
-		if (TempQueue.FirstNode == NULL)  return;
+		if (&TempQueue == this || TempQueue.FirstNode == NULL)  return;
 
 		if (LastNode != NULL)
 		{
-- 
2.43.0


From fcf289b5739d7914812b572f8b03665f9cf481b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 34/79] fix: keys are found in a copied OrderedHash and its
 first node has no previous node

---
 templates/detachable_ordered_hash_util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 48d6cc6..f3ee210 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -77,6 +77,7 @@ public:
 			// Attach each cloned node to the end of the list.
 			Node2 = new OrderedHashNode<T>(*Node);
 			Node2->NextListNode = NULL;
+			Node2->PrevListNode = NULL;
 
 			if (FirstListNode == NULL)  FirstListNode = Node2;
 			else
@@ -92,6 +93,7 @@ public:
 			x = (size_t)(Node2->HashKey % HashSize);
 			Node2->NextHashNode = HashNodes[x];
 			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+			HashNodes[x] = Node2;
 
 			Node = Node->NextListNode;
 		}
@@ -132,6 +134,7 @@ public:
 				// Attach each cloned node to the end of the list.
 				Node2 = new OrderedHashNode<T>(*Node);
 				Node2->NextListNode = NULL;
+				Node2->PrevListNode = NULL;
 
 				if (FirstListNode == NULL)  FirstListNode = Node2;
 				else
@@ -147,6 +150,7 @@ public:
 				x = (size_t)(Node2->HashKey % HashSize);
 				Node2->NextHashNode = HashNodes[x];
 				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+				HashNodes[x] = Node2;
 
 				Node = Node->NextListNode;
 			}
-- 
2.43.0


From 1a25f6ccc7193507542e06dd4e2f74f7e2c4ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 35/79] fix: nodes detached by OrderedHash::Empty() do not
 bring stale list links along

---
 templates/detachable_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index f3ee210..def5148 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -274,6 +274,7 @@ public:
 		// Insert into the list.
 		if (Next == NULL)
 		{
+			Node->NextListNode = NULL;
 			Node->PrevListNode = LastListNode;
 			if (LastListNode != NULL)  LastListNode->NextListNode = Node;
 			LastListNode = Node;
@@ -338,6 +339,7 @@ public:
 		// Insert into the list.
 		if (Prev == NULL)
 		{
+			Node->PrevListNode = NULL;
 			Node->NextListNode = FirstListNode;
 			if (FirstListNode != NULL)  FirstListNode->PrevListNode = Node;
 			FirstListNode = Node;
-- 
2.43.0


From 959da223eb50e775cb0f63fbe1c8e2aa85b5b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 36/79] fix: OrderedHash always has at least one bucket

---
 templates/detachable_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index def5148..2341805 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -24,7 +24,7 @@ public:
 #endif
 		(size_t EstimatedSize = 23, std::uint64_t HashKey = 5381) : UseSipHash(false), Key1(HashKey), Key2(0), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize > 0 ? EstimatedSize : 1);
 	}
 
 	// Keys are securely hashed via SipHash-2-4.
@@ -36,7 +36,7 @@ public:
 #endif
 		(size_t EstimatedSize, std::uint64_t HashKey1, std::uint64_t HashKey2) : UseSipHash(true), Key1(HashKey1), Key2(HashKey2), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize > 0 ? EstimatedSize : 1);
 	}
 
 #ifdef CUBICLESOFT_DETACHABLE_ORDEREDHASH_NOCOPYASSIGN
-- 
2.43.0


From e8208a88181ed769e669cf2707e9cb1e7eb733b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 37/79] fix: OrderedHashNoCopy copy constructor and assignment
 operator are private

---
 templates/detachable_ordered_hash_util.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 2341805..36c43d0 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -54,8 +54,11 @@ public:
 	}
 
 #ifdef CUBICLESOFT_DETACHABLE_ORDEREDHASH_NOCOPYASSIGN
+private:
 	OrderedHashNoCopy(const OrderedHashNoCopy<T> &TempHash);
 	OrderedHashNoCopy<T> &operator=(const OrderedHashNoCopy<T> &TempHash);
+
+public:
 #else
 	OrderedHash(const OrderedHash<T> &TempHash)
 	{
-- 
2.43.0


From d98d84bd6734b8acd87a9a33142751b54552d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:39 +0000
Subject: [PATCH 38/79] fix: copying a PackedOrderedHash stops at the end of
 the source

---
 templates/packed_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 56f6bbf..10d6e70 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -84,7 +84,7 @@ public:
 		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
 		NumUsed = TempHash.NumUsed;
 
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + TempHash.NextNodePos;
 
 		while (Node != LastNode)
 		{
@@ -147,7 +147,7 @@ public:
 
 			Node = TempHash.ArrayNodes;
 			Node2 = ArrayNodes;
-			LastNode = ArrayNodes + NextNodePos;
+			LastNode = TempHash.ArrayNodes + TempHash.NextNodePos;
 
 			while (Node != LastNode)
 			{
-- 
2.43.0


From e9b3318ac26858345706c8551330bdcafe7ae69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:39 +0000
Subject: [PATCH 39/79] fix: resizing a PackedOrderedHash frees the previous
 array

---
 templates/packed_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 10d6e70..7c09955 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -510,6 +510,8 @@ private:
 
 				Node++;
 			}
+
+			delete[] (char *)ArrayNodes;
 		}
 
 		ArrayNodes = ArrayNodes2;
-- 
2.43.0


From 5d62ce8559724440c7f688d1ca9ec12342a8990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:39 +0000
Subject: [PATCH 40/79] fix: PackedOrderedHashNoCopy copy constructor and
 assignment operator are private

---
 templates/packed_ordered_hash_util.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 7c09955..165a1e0 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -66,8 +66,11 @@ public:
 	}
 
 #ifdef CUBICLESOFT_PACKEDORDEREDHASH_NOCOPYASSIGN
+private:
 	PackedOrderedHashNoCopy(const PackedOrderedHashNoCopy<T> &TempHash);
 	PackedOrderedHashNoCopy<T> &operator=(const PackedOrderedHashNoCopy<T> &TempHash);
+
+public:
 #else
 	PackedOrderedHash(const PackedOrderedHash<T> &TempHash)
 	{
-- 
2.43.0


From be12a5ddd6084df1fb12b8e078ce57a4cba6a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 41/79] fix: FastReplace does not read past the end of the
 previous buffer when it grows

---
 templates/fast_find_replace_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d0c8857..9288b9e 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -563,7 +563,7 @@ public:
 				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-				memcpy(NewData, MxData, NewSize * sizeof(T));
+				memcpy(NewData, MxData, MxDataPos * sizeof(T));
 				delete[] reinterpret_cast<char *>(MxData);
 
 				MxData = NewData;
@@ -609,7 +609,7 @@ public:
 					MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 					T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-					memcpy(NewData, MxData, (MxDataSize + MxExtraAlloc) * sizeof(T));
+					memcpy(NewData, MxData, MxDataPos * sizeof(T));
 					delete[] reinterpret_cast<char *>(MxData);
 
 					MxData = NewData;
-- 
2.43.0


From aa19d4bc500c15d44d28909d1a15468d9c390352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 42/79] fix: FastReplace in-place replacement handles
 overlapping data

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 9288b9e..d837118 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -587,7 +587,7 @@ public:
 
 		if (SrcDist)
 		{
-			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
+			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
 		}
 
-- 
2.43.0


From 37571a4fe1ec46fccff5f8cfa1897ccf1328e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 43/79] fix: FastReplace keeps the rest of the data when the
 replacement limit is reached

---
 templates/fast_find_replace_util.h | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d837118..b5cd1e0 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -714,9 +714,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -724,6 +724,18 @@ public:
 			Num++;
 		}
 
+		// Copy the rest of the data when the limit was reached.
+		if (Num == Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 		Result = TempReplace.DetachData();
 
@@ -782,9 +794,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -792,6 +804,18 @@ public:
 			Num++;
 		}
 
+		// Copy the rest of the data when the limit was reached.
+		if (Num == Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 
 		return Num;
-- 
2.43.0


From 4aedd5d58e8784ceb9a96a5b3127cb4b9078c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 44/79] fix: FastReplace::SetData() frees the previous result
 buffer

---
 templates/fast_find_replace_util.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index b5cd1e0..c91ebea 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -517,6 +517,15 @@ public:
 	// Only pass in ResultBuffer and ResultBufferSize for static buffers and replacements that will be smaller than the original.
 	void SetData(const T *Data, size_t Size, T *ResultBuffer = NULL, size_t ResultBufferSize = 0)
 	{
+		if (MxData != NULL && MxDataAllocated)
+		{
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
+			AllocType::free(MxAltMallocManager, MxData);
+#else
+			delete[] reinterpret_cast<char *>(MxData);
+#endif
+		}
+
 		MxFind.SetData(Data, Size);
 
 		MxSrcCurr = Data;
-- 
2.43.0


From a9aa098aeec7064cecc2892beb06a44d15302040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 45/79] fix: StaticMixedVar starts with a terminated string

---
 templates/static_mixed_var.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 409a7a1..9a82ec6 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -35,6 +35,7 @@ namespace CubicleSoft
 
 		StaticMixedVar() : MxMode(MV_None), MxInt(0), MxDouble(0.0), MxStrPos(0)
 		{
+			MxStr[0] = '\0';
 		}
 
 		// Some functions for those who prefer member functions over directly accessing raw class data.
-- 
2.43.0


From c45e3a86a2fdc6452f5a7a9fd15c699cb17c038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 46/79] fix: StaticMixedVar::PrependData() size check does not
 overflow

---
 templates/static_mixed_var.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 9a82ec6..48257c3 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -165,7 +165,7 @@ namespace CubicleSoft
 
 		void PrependData(const char *str, size_t size)
 		{
-			if (MxStrPos + size < sizeof(MxStr) - 1)
+			if (size < sizeof(MxStr) - 1 - MxStrPos)
 			{
 				memmove(MxStr + size, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, size);
-- 
2.43.0


From fda6ae4fa0da1e9bb836cbd6b90c1ac5057057de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 47/79] fix: UTF8MixedVar does not drop or split multibyte
 characters

---
 utf8/utf8_mixed_var.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 9227fac..1bd65d3 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -30,7 +30,7 @@ namespace CubicleSoft
 			void SetUTF8(const WCHAR *src, size_t srcsize)
 			{
 				this->MxMode = MV_Str;
-				this->MxStrPos = sizeof(this->MxStr);
+				this->MxStrPos = sizeof(this->MxStr) - 1;
 				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr, this->MxStrPos);
 				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
@@ -48,10 +48,9 @@ namespace CubicleSoft
 
 			void AppendUTF8(const WCHAR *src)
 			{
-				size_t srcsize = wcslen(src);
-				if (srcsize > sizeof(this->MxStr) - this->MxStrPos)  srcsize = sizeof(this->MxStr) - this->MxStrPos;
-				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, srcsize);
-				this->MxStrPos += srcsize;
+				size_t destsize = sizeof(this->MxStr) - 1 - this->MxStrPos;
+				Util::ConvertToUTF8(src, wcslen(src), sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, destsize);
+				this->MxStrPos += destsize;
 				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
-- 
2.43.0


From e2da0776bd8edaec481f69e733026a0fa39fdd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 48/79] fix: allocating ConvertFromUTF8() sizes from the byte
 length and terminates the result

---
 utf8/utf8_util.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index f3aa7d8..e95ccc1 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -1,6 +1,8 @@
 // Cross-platform UTF-8 string conversion and lightweight parser.
 // (C) 2013 CubicleSoft.  All Rights Reserved.
 
+#include <cstring>
+
 #include "utf8_util.h"
 
 namespace CubicleSoft
@@ -50,17 +52,22 @@ namespace CubicleSoft
 
 		void *Util::ConvertFromUTF8(const char *SrcData, size_t DestWidth, void *AltMallocManager, void *(*AltMalloc)(void *, size_t))
 		{
-			size_t x, y;
+			size_t x, y = 0;
 			void *DestData;
 
-			x = strlen(SrcData);
+			x = ::strlen(SrcData);
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, NULL, y, DestWidth);
-			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y) : new std::uint8_t[y]);
-			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, y * sizeof(uint16_t)) : new uint16_t[y]);
-			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, y * sizeof(uint32_t)) : new std::uint32_t[y]);
+			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y + 1) : new std::uint8_t[y + 1]);
+			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint16_t)) : new uint16_t[y + 1]);
+			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint32_t)) : new std::uint32_t[y + 1]);
 			else  return NULL;
+			if (DestData == NULL)  return NULL;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, DestData, y, DestWidth);
 
+			if (DestWidth == 1)  ((std::uint8_t *)DestData)[y] = 0;
+			else if (DestWidth == 2)  ((uint16_t *)DestData)[y] = 0;
+			else  ((std::uint32_t *)DestData)[y] = 0;
+
 			return DestData;
 		}
 
@@ -257,7 +264,7 @@ namespace CubicleSoft
 			DestDataSize = 0;
 
 			x = 0;
-			while (x < SrcDataSize && y)
+			while (x < SrcDataSize && (y || DestData == NULL))
 			{
 				TempCP = SrcData[x];
 
-- 
2.43.0


From 81cf85ae592f233507964f5fd3d1907b0d6c7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 49/79] fix: UTF-8 parser functions do not recurse endlessly

---
 utf8/utf8_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index e95ccc1..9cf1050 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -346,7 +346,7 @@ namespace CubicleSoft
 			}
 			else
 			{
-				Size = strlen(Str);
+				Size = ::strlen(Str);
 				HasCombiningCP = false;
 
 				ResultCP = Str2[0];
-- 
2.43.0


From fa0202b2712648e9e6910c4d3fe88f97e1e6f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 50/79] fix: UTF-8 parser functions decode multibyte code
 points

---
 utf8/utf8_util.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 9cf1050..2272a39 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -353,9 +353,21 @@ namespace CubicleSoft
 				if (ResultCP == 0)  return false;
 
 				if (ResultCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  return false;
 
 				// First character can't be a combining code point.
@@ -367,9 +379,21 @@ namespace CubicleSoft
 			if (NextCP != 0)
 			{
 				if (NextCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  NextCP = 0;
 			}
 
-- 
2.43.0


From a049b9d709faaf60eeaead3af73cf83430ae7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 51/79] fix: an unpaired UTF-16 surrogate does not swallow the
 next character

---
 utf8/utf8_util.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 2272a39..2a3eb34 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -186,12 +186,13 @@ namespace CubicleSoft
 					{
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else
+					else if (x + 1 < SrcDataSize)
 					{
-						x++;
-
-						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
+						// An unpaired surrogate doesn't affect the character after it.
+						if (SrcData2[x + 1] >= 0xDC00 && SrcData2[x + 1] <= 0xDFFF)
 						{
+							x++;
+
 							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
 							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 						}
-- 
2.43.0


From f5931043e78f8177157410bd1d449e4c3ae686f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:52 +0000
Subject: [PATCH 52/79] fix: the last converted position of a UTF-8 string
 includes every byte of the last character

---
 utf8/utf8_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 2a3eb34..882c74e 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -162,14 +162,14 @@ namespace CubicleSoft
 					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
-						AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y);
 						x += 3;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 						x += 4;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else  x++;
 				}
-- 
2.43.0


From c94842436d74b289daf4cdd43dbc5b0cb06afa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:49 +0000
Subject: [PATCH 53/79] fix: GetCurrentUserAppStorageDir() does not write the
 terminator past the end of the buffer

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 878a5f8..70956a0 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -184,7 +184,7 @@ namespace CubicleSoft
 			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
 			if (HomeDir == NULL)  return false;
 
-			if (z2 < strlen(HomeDir))  return false;
+			if (z2 <= strlen(HomeDir))  return false;
 
 			strcpy(Buffer, HomeDir);
 			size_t z = strlen(HomeDir);
-- 
2.43.0


From f50d4e6ff449a2d3d225c7415cc1c4c6b5c91f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:49 +0000
Subject: [PATCH 54/79] fix: GetCurrentUserAppStorageDir() fails when the user
 has no passwd entry

---
 utf8/utf8_appinfo.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 70956a0..36e27d2 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -181,7 +181,11 @@ namespace CubicleSoft
 			if (z2)  Buffer[0] = '\0';
 
 			const char *HomeDir = getenv("HOME");
-			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
+			if (HomeDir == NULL)
+			{
+				struct passwd *UserInfo = getpwuid(getuid());
+				if (UserInfo != NULL)  HomeDir = UserInfo->pw_dir;
+			}
 			if (HomeDir == NULL)  return false;
 
 			if (z2 <= strlen(HomeDir))  return false;
-- 
2.43.0


From edf47a3c9f7f95c702c9a3e9166215ec2d0ff2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:49 +0000
Subject: [PATCH 55/79] fix: GetCurrentUserAppStorageDir() does not read before
 the buffer when HOME is empty

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 36e27d2..3ba96ca 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -213,7 +213,7 @@ namespace CubicleSoft
 		// Internal function to standardize a directory on *NIX.
 		bool AppInfo::GetNIXStorageDir(char *Buffer, size_t &BufferSize, const char *AppDirPrefix, const char *AppDir, size_t z, size_t z2)
 		{
-			if (z < z2 && Buffer[z - 1] != '/')  Buffer[z++] = '/';
+			if (z < z2 && (!z || Buffer[z - 1] != '/'))  Buffer[z++] = '/';
 			if (AppDir != NULL)
 			{
 				if (AppDirPrefix != NULL)
-- 
2.43.0


From 1a128e67f7a0c0b3b902a4c1582e0e8ffcecc589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:49 +0000
Subject: [PATCH 56/79] fix: GetTempStorageDir() does not write the terminator
 past the end of the buffer

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 3ba96ca..302bdce 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -202,7 +202,7 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
-			if (z2 < 5)  return false;
+			if (z2 < 6)  return false;
 
 			strcpy(Buffer, "/tmp/");
 			size_t z = 5;
-- 
2.43.0


From 839809e18f20bc52fd59260f2a4c57f8fa309fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:49 +0000
Subject: [PATCH 57/79] fix: GetExecutableFilename() does not return a
 different file when the buffer is too small

---
 utf8/utf8_appinfo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 302bdce..2da8ac5 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -131,7 +131,15 @@ namespace CubicleSoft
 			char *Filename;
 			if (z > 0)
 			{
-				if ((size_t)z < z2)  Buffer[z] = '\0';
+				// A name that fills the whole buffer is most likely truncated.
+				if ((size_t)z >= z2)
+				{
+					Buffer[0] = '\0';
+
+					return false;
+				}
+
+				Buffer[z] = '\0';
 
 				Filename = realpath(Buffer, NULL);
 			}
-- 
2.43.0


From 9789feeea8c413fd531115fa07a09f4962509441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 58/79] fix: filenames with multibyte UTF-8 characters are
 valid

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 672d843..5e4228e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -228,7 +228,7 @@ namespace CubicleSoft
 		bool File::GetPlatformFilename(char *Result, size_t ResultSize, const char *Filename, bool AllowUnsafe)
 		{
 			// Check for invalid characters and strings (restricted device names) in the path/filename.  Replace '/' with '\'.
-			char TempCP;
+			std::uint8_t TempCP;
 			size_t x, y = strlen(Filename), OrigResultSize = ResultSize, y2;
 			if (y + 1 > ResultSize)  return false;
 			Util::ConvertToUTF8(Filename, y + 1, sizeof(char), (std::uint8_t *)Result, ResultSize);
@@ -1382,7 +1382,7 @@ namespace CubicleSoft
 		bool File::GetPlatformFilename(char *Result, size_t ResultSize, const char *Filename, bool)
 		{
 			// Check for invalid characters in the path/filename.  Replace '\' with '/'.
-			char TempCP;
+			std::uint8_t TempCP;
 			size_t x, y = strlen(Filename);
 			if (y + 1 > ResultSize)  return false;
 			Util::ConvertToUTF8(Filename, y + 1, sizeof(char), (std::uint8_t *)Result, ResultSize);
-- 
2.43.0


From 846b9745692eecf1bd509680ebec69b4bd34d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 59/79] fix: a file that could not be locked does not stay open

---
 utf8/utf8_file_dir.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 5e4228e..9815bb4 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1259,17 +1259,32 @@ namespace CubicleSoft
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
 			{
-				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
 			else if (ShareFlag == ShareBoth)
 			{
-				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
-			else  return false;
+			else
+			{
+				Close();
+
+				return false;
+			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-- 
2.43.0


From b3491ffc14d2eb1e2894b5139cec7bed937fe191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 60/79] fix: seeking forward by a large amount does not go
 backward

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 9815bb4..e210349 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -142,7 +142,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
@@ -1303,7 +1303,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
-- 
2.43.0


From dc9a32d007a23dcda528ce137a8f5ff123036614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 61/79] fix: an interrupted write is retried with the same data

---
 utf8/utf8_file_dir.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index e210349..b530346 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1351,7 +1351,12 @@ namespace CubicleSoft
 			do
 			{
 				BytesWritten = ::write(MxFile, Data, DataSize);
-				if (BytesWritten < 0 && errno != EINTR)  return false;
+				if (BytesWritten < 0)
+				{
+					if (errno != EINTR)  return false;
+
+					BytesWritten = 0;
+				}
 
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
-- 
2.43.0


From 6fa8c342a7bbd28fcb9418b2dcf345c6cfaff57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 62/79] fix: a write that fails after a partial write keeps the
 file position

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index b530346..175f9d0 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1361,9 +1361,9 @@ namespace CubicleSoft
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
 				DataWritten += BytesWritten;
+				MxCurrPos += (std::uint64_t)BytesWritten;
+				if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 			} while (DataSize);
-			MxCurrPos += (std::uint64_t)DataWritten;
-			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
 			return true;
 		}
-- 
2.43.0


From 48bd8d50bfcbb3a8aa902bbc334f417a988f5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 63/79] fix: GetAbsoluteFilename() does not look at
 uninitialized data

---
 utf8/utf8_file_dir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 175f9d0..4b96c38 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1524,6 +1524,7 @@ namespace CubicleSoft
 			}
 
 			// Copy the rest.
+			Filename2[FileInfo2.Length] = '\0';
 			x = 0;
 			x2 = x;
 			for (; x2 < ResultSize && x < FileInfo2.Length; x++)
-- 
2.43.0


From 830ce2766c531d0ef225457adbf483de05fd5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 64/79] fix: Chgrp() looks up a group instead of a user

---
 utf8/utf8_file_dir.cpp | 6 +++---
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4b96c38..f9667b1 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1596,10 +1596,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Group);
-			if (UserInfo == NULL)  return false;
+			struct group *GroupInfo = getgrnam(Group);
+			if (GroupInfo == NULL)  return false;
 
-			return (::chown(Filename2, -1, UserInfo->pw_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 09640c3..19c8e29 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -25,6 +25,7 @@
 	#include <fcntl.h>
 	#include <unistd.h>
 	#include <pwd.h>
+	#include <grp.h>
 	#include <errno.h>
 	#include <utime.h>
 	#include <dirent.h>
-- 
2.43.0


From 29036e4eac09f8ddc1554710051cb330f195daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 65/79] fix: Copy() copies exactly the source data and reports
 read and write errors

---
 utf8/utf8_file_dir.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index f9667b1..6343d9f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1619,16 +1619,17 @@ namespace CubicleSoft
 			if (!DestFile.Open(DestFilename2, O_WRONLY | O_CREAT, File::ShareNone, SrcStat.st_mode))  return false;
 
 			std::uint8_t Buffer[8192];
-			size_t y;
+			size_t y, y2;
 
 			// Copy the data.
-			while (SrcFile.Read(Buffer, 8192, y) && y)
+			do
 			{
-				DestFile.Write(Buffer, 8192, y);
-			}
+				if (!SrcFile.Read(Buffer, 8192, y))  return false;
+				if (!DestFile.Write(Buffer, y, y2))  return false;
+			} while (y);
 
 			// Truncate the file to the current point.
-			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) == 0)  {}
+			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) != 0)  return false;
 
 			DestFile.Close();
 			SrcFile.Close();
-- 
2.43.0


From e61df2d000d8a8b60a08da5117a46454f21b9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 66/79] fix: Readlink() terminates the result

---
 utf8/utf8_file_dir.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 6343d9f..090be4d 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1689,7 +1689,10 @@ namespace CubicleSoft
 		{
 			ssize_t Size = ::readlink(Filename, Result, ResultSize);
 
-			return (Size != -1 && (size_t)Size < ResultSize);
+			if (Size == -1 || (size_t)Size >= ResultSize)  return false;
+			Result[Size] = '\0';
+
+			return true;
 		}
 
 		// Only Windows supports Creation timestamp modification.
-- 
2.43.0


From c3c48b4a861ca09c40f6e261e12abc0c334475b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 67/79] fix: LineInput() does not read past the end of the
 previous buffer when it grows

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 090be4d..4022344 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1903,7 +1903,7 @@ namespace CubicleSoft
 					else
 					{
 						Result2 = new char[CurrSize + 1];
-						memcpy(Result2, Result, CurrSize);
+						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
 					}
-- 
2.43.0


From 3f8882d78e85443c901a23eb84655d72d090de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 68/79] fix: LineInput() with a zero size hint makes progress

---
 utf8/utf8_file_dir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4022344..2f65ce5 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1889,6 +1889,8 @@ namespace CubicleSoft
 
 			if (!IsOpen() || !MxRead)  return NULL;
 
+			if (!SizeHint)  SizeHint = 1;
+
 			Result = NULL;
 			CurrSize = SizeHint;
 			do
-- 
2.43.0


From ba3013e0720f2c9e29b565ae4f910eb0f1adbcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 69/79] fix: LoadEntireFile() uses the allocator functions when
 they are supplied

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 2f65ce5..1f74917 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1969,12 +1969,12 @@ namespace CubicleSoft
 
 			char *TempResult;
 			size_t TempSize = (size_t)TempFile.GetMaxPos(), TempSize2;
-			if (AltMallocManager != NULL)  TempResult = (char *)AltMalloc(AltMallocManager, TempSize);
+			if (AltMalloc != NULL)  TempResult = (char *)AltMalloc(AltMallocManager, TempSize);
 			else  TempResult = new char[TempSize];
 
 			if (!TempFile.Read((std::uint8_t *)TempResult, TempSize, TempSize2) || TempSize != TempSize2)
 			{
-				if (AltMallocManager != NULL)  AltFree(AltMallocManager, TempResult);
+				if (AltMalloc != NULL)  AltFree(AltMallocManager, TempResult);
 				else  delete[] TempResult;
 
 				return false;
-- 
2.43.0


From 31fe218050a45816bfaf44b861841a961cad272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:51 +0000
Subject: [PATCH 70/79] fix: release the thread cache when TLS::ThreadInit()
 cannot store it

---
 sync/sync_tls.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 32ea32c..2d01a5e 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -62,7 +62,12 @@ namespace CubicleSoft
 			StaticVector<Queue<char>> *MainPtr = GetMainPtr();
 			if (MainPtr != NULL)  return true;
 
-			return SetMainPtr(new StaticVector<Queue<char>>(MaxCacheBits));
+			MainPtr = new StaticVector<Queue<char>>(MaxCacheBits);
+			if (SetMainPtr(MainPtr))  return true;
+
+			delete MainPtr;
+
+			return false;
 		}
 
 		void *TLS::malloc(size_t Size)
-- 
2.43.0


From 6f078aa4d4ad00c2277f631db072502fe52f526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:59 +0000
Subject: [PATCH 71/79] fix: GetAbsoluteFilename() of the root directory is not
 empty

Without a trailing slash the name of the root directory became an empty
string, so that for example Dir::Open("/") failed.
---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 1f74917..c40e579 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1534,7 +1534,7 @@ namespace CubicleSoft
 				Result[x2++] = Filename2[x];
 			}
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
-			if (!TrailingSlash && x2 && Result[x2 - 1] == '/')  x2--;
+			if (!TrailingSlash && x2 > 1 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
 			Result[x2] = '\0';
 
-- 
2.43.0


From ff7e45a81cc518eea705388e6f09a614d6516ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:15 +0000
Subject: [PATCH 72/79] fix: GetAbsoluteFilename() does not cut names off that
 do not fit

When the buffer ended right behind a path separator the function removed
the separator and returned the name of a parent directory as success.
---
 utf8/utf8_file_dir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index c40e579..6390d2f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1533,6 +1533,7 @@ namespace CubicleSoft
 
 				Result[x2++] = Filename2[x];
 			}
+			if (x < FileInfo2.Length)  return false;
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
 			if (!TrailingSlash && x2 > 1 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
-- 
2.43.0


From 05f860a6589afa78d9625cb87fde27c2e943fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:15 +0000
Subject: [PATCH 73/79] fix: GetAbsoluteFilename() processes leading '.' and
 '..' of relative names

Names like "./name" and "../name" were refused and "." and ".." were
appended to the base directory as they are.
---
 utf8/utf8_file_dir.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 6390d2f..394d5ff 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1447,8 +1447,18 @@ namespace CubicleSoft
 
 			if (!GetPlatformFilename(Filename3, 8192, Filename))  return false;
 
-			// Replace '/./' with '/'.
+			// Start relative names with a path separator as well so that leading '.' and '..' are processed like any other.
 			size_t x, x2, y = strlen(Filename3);
+			bool Relative = (Filename3[0] != '/');
+			if (Relative)
+			{
+				if (y >= 8191)  return false;
+				memmove(Filename3 + 1, Filename3, y + 1);
+				Filename3[0] = '/';
+				y++;
+			}
+
+			// Replace '/./' with '/'.
 			x2 = 0;
 			for (x = 0; x < y; x++)
 			{
@@ -1499,7 +1509,7 @@ namespace CubicleSoft
 			}
 
 			GetPlatformFilenameInfo(FileInfo2, Filename2);
-			if (Filename3[FileInfo3.StartPath] == '/')  FileInfo2.Length = FileInfo2.StartPath;
+			if (!Relative)  FileInfo2.Length = FileInfo2.StartPath;
 
 			// Make sure the string always starts with a path separator.
 			if (FileInfo2.Length >= 8191)  return false;
-- 
2.43.0


From 9a2a852c0959daf4121ed13a520879cefcee15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:29 +0000
Subject: [PATCH 74/79] fix: overlong UTF-8 sequences are invalid and not
 converted to the characters they stand for

---
 utf8/utf8_util.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 882c74e..7fb7e3a 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -153,19 +153,19 @@ namespace CubicleSoft
 						x++;
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else if (x + 1 < SrcDataSize && (TempCP & 0xE0) == 0xC0 && (SrcData2[x + 1] & 0xC0) == 0x80)
+					else if (x + 1 < SrcDataSize && TempCP >= 0xC2 && (TempCP & 0xE0) == 0xC0 && (SrcData2[x + 1] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x1F) << 6) | ((std::uint32_t)SrcData2[x + 1] & 0x3F));
 						x += 2;
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
+					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (TempCP > 0xE0 || SrcData2[x + 1] >= 0xA0) && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
 						x += 3;
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
+					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (TempCP > 0xF0 || SrcData2[x + 1] >= 0x90) && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
 						x += 4;
@@ -274,19 +274,19 @@ namespace CubicleSoft
 					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
 					x++;
 				}
-				else if (x + 1 < SrcDataSize && (TempCP & 0xE0) == 0xC0 && (SrcData[x + 1] & 0xC0) == 0x80)
+				else if (x + 1 < SrcDataSize && TempCP >= 0xC2 && (TempCP & 0xE0) == 0xC0 && (SrcData[x + 1] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x1F) << 6) | ((std::uint32_t)SrcData[x + 1] & 0x3F));
 					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
 					x += 2;
 				}
-				else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80)
+				else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (TempCP > 0xE0 || SrcData[x + 1] >= 0xA0) && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData[x + 2] & 0x3F));
 					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
 					x += 3;
 				}
-				else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80 && (SrcData[x + 3] & 0xC0) == 0x80)
+				else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (TempCP > 0xF0 || SrcData[x + 1] >= 0x90) && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80 && (SrcData[x + 3] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData[x + 3] & 0x3F));
 					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
-- 
2.43.0


From 583f85eda424e74aeb3158c8d2ea460088846876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:30 +0000
Subject: [PATCH 75/79] fix: NextCodePoint returns false on overlong sequences,
 surrogates and code points above 0x10FFFF

---
 utf8/utf8_util.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 7fb7e3a..e876867 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -354,17 +354,17 @@ namespace CubicleSoft
 				if (ResultCP == 0)  return false;
 
 				if (ResultCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				else if (Pos + 1 < Size && ResultCP >= 0xC2 && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
 				{
 					ResultCP = (((ResultCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
 					Pos += 2;
 				}
-				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (ResultCP != 0xE0 || Str2[Pos + 1] >= 0xA0) && (ResultCP != 0xED || Str2[Pos + 1] < 0xA0) && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
 				{
 					ResultCP = (((ResultCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
 					Pos += 3;
 				}
-				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				else if (Pos + 3 < Size && ResultCP <= 0xF4 && (ResultCP & 0xF8) == 0xF0 && (ResultCP != 0xF0 || Str2[Pos + 1] >= 0x90) && (ResultCP != 0xF4 || Str2[Pos + 1] < 0x90) && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
 				{
 					ResultCP = (((ResultCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
 					Pos += 4;
@@ -380,17 +380,17 @@ namespace CubicleSoft
 			if (NextCP != 0)
 			{
 				if (NextCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				else if (Pos + 1 < Size && NextCP >= 0xC2 && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
 				{
 					NextCP = (((NextCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
 					Pos += 2;
 				}
-				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (NextCP != 0xE0 || Str2[Pos + 1] >= 0xA0) && (NextCP != 0xED || Str2[Pos + 1] < 0xA0) && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
 				{
 					NextCP = (((NextCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
 					Pos += 3;
 				}
-				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				else if (Pos + 3 < Size && NextCP <= 0xF4 && (NextCP & 0xF8) == 0xF0 && (NextCP != 0xF0 || Str2[Pos + 1] >= 0x90) && (NextCP != 0xF4 || Str2[Pos + 1] < 0x90) && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
 				{
 					NextCP = (((NextCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
 					Pos += 4;
-- 
2.43.0


From f5bee705bbfb2e33dda664dc924ebfdf4e5d32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:23 +0000
Subject: [PATCH 76/79] fix: StaticMixedVar writes every integer in every radix
 and every double in full

---
 templates/static_mixed_var.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 48257c3..f6c071b 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -175,19 +175,19 @@ namespace CubicleSoft
 
 		void PrependInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void PrependUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void PrependDouble(const double val, const size_t precision = 16)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
@@ -219,19 +219,19 @@ namespace CubicleSoft
 
 		void AppendInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void AppendUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void AppendDouble(const double val, const size_t precision = 16)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
-- 
2.43.0


From 3be453ca49990d7dbd7b6f26fe51da320b240935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:23 +0000
Subject: [PATCH 77/79] fix: TLS::MixedVar writes every integer in every radix
 and every double in full

---
 sync/sync_tls.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 2d01a5e..33c6edf 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -341,19 +341,19 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::PrependInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::PrependUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::PrependDouble(const double val, const size_t precision)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
@@ -379,19 +379,19 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::AppendInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::AppendUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::AppendDouble(const double val, const size_t precision)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
-- 
2.43.0


From 642ef7be0f693d2588ea6ece30be5b15eec98dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:03 +0000
Subject: [PATCH 78/79] fix: TLS allocation sizes that no power of two reaches
 are refused instead of looping forever

---
 sync/sync_tls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 33c6edf..a760f9f 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -72,7 +72,7 @@ namespace CubicleSoft
 
 		void *TLS::malloc(size_t Size)
 		{
-			if (Size == 0)  return NULL;
+			if (Size == 0 || Size > ~((size_t)-1 >> 1))  return NULL;
 
 			StaticVector<Queue<char>> *MainPtr = GetMainPtr();
 			if (MainPtr == NULL)  return NULL;
@@ -118,6 +118,7 @@ namespace CubicleSoft
 			}
 
 			if (Data == NULL)  return malloc(NewSize);
+			if (NewSize > ~((size_t)-1 >> 1))  return NULL;
 
 			// See if it fits in the current size.
 			size_t Pos = NormalizeBitPosition(NewSize);
-- 
2.43.0


From e6d6c37a47f96de5340d89f054b41a46973b15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:32 +0000
Subject: [PATCH 79/79] fix: a packed hash asked for more nodes than its
 positions can address no longer loops forever

---
 templates/packed_ordered_hash_util.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 165a1e0..487ec56 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -432,6 +432,9 @@ public:
 
 	bool ResizeHash(size_t NewHashSize)
 	{
+		// Positions are stored in 31 bits and the largest one is reserved.
+		if (NewHashSize > 0x40000000)  NewHashSize = 0x40000000;
+
 		size_t NewSize = 1;
 		while (NewSize < NewHashSize)  NewSize <<= 1;
 
-- 
2.43.0

