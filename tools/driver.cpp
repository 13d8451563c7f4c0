// Explicit instantiations of the header-only templates, so that every member function is analysed.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cinttypes>
#include "templates/cache.h"
#include "templates/detachable_list.h"
#include "templates/detachable_ordered_hash.h"
#include "templates/detachable_queue.h"
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
#include "templates/static_mixed_var.h"
#include "templates/fast_find_replace.h"
#include "templates/packed_ordered_hash.h"
#include "templates/shared_lib.h"
#include "utf8/utf8_mixed_var.h"
#include "sync/sync_tls.h"
#include "json/json_serializer.h"
#include "sync/sync_sharedmem.h"
#include "utf8/utf8_file_dir.h"

// A value type whose construction and destruction is visible to the analysis.
struct VerifValue
{
	VerifValue() noexcept;
	VerifValue(const VerifValue &) noexcept;
	~VerifValue() noexcept;
	VerifValue &operator=(const VerifValue &) noexcept;
	bool operator==(const VerifValue &) const noexcept;
	long v;
};

// A comparison of elements that the analysis decides.
struct VerifEq
{
	bool operator()(const char &a, const char &b) const noexcept;
};

namespace CubicleSoft
{
	template class PackedOrderedHashNode<VerifValue>;
	template class PackedOrderedHash<VerifValue>;
	template class PackedOrderedHashNoCopy<VerifValue>;
	template class ListNode<long>;
	template class List<long>;
	template class ListNoCopy<long>;
	template class QueueNode<long>;
	template class Queue<long>;
	template class QueueNoCopy<long>;
	template class OrderedHashNode<long>;
	template class OrderedHash<long>;
	template class OrderedHashNoCopy<long>;
	template class PackedOrderedHashNode<long>;
	template class PackedOrderedHash<long>;
	template class PackedOrderedHashNoCopy<long>;
	template class CacheNode<long, long>;
	template class Cache<long, long>;
	template class CacheNoCopy<long, long>;
	template class StaticVector<long>;
	template class Static2DArray<long>;
	template class StaticVector<VerifValue>;
	template class Static2DArray<VerifValue>;
	template class CacheNode<VerifValue, VerifValue>;
	template class Cache<VerifValue, VerifValue>;
	template class CacheNoCopy<VerifValue, VerifValue>;
	template class StaticMixedVar<char[64]>;
	template class StaticMixedVar<char[8]>;
	template class UTF8::UTF8MixedVar<char[8]>;
	template class UTF8::UTF8MixedVar<char[64]>;
	template class FastFind<char>;
	template class FastReplace<char>;
	template class FastFind<long>;
	template class FastReplace<long>;
	template class FastFindCompare<char, VerifEq>;
	template class FastReplaceCompare<char, VerifEq>;
	template class FastFindAlloc<char, Sync::TLS>;
	template class FastReplaceAlloc<char, Sync::TLS>;
	template class FastFindAllocCompare<char, Sync::TLS, VerifEq>;
	template class FastReplaceAllocCompare<char, Sync::TLS, VerifEq>;
}

// Calls through the shared library wrapper templates.
bool verif_sl_call(CubicleSoft::SharedLib::FunctionUtil &F, long &R, long A) { return CubicleSoft::SharedLib::Call<long>(F, R, A); }
bool verif_sl_callvoid(CubicleSoft::SharedLib::FunctionUtil &F, long A) { return CubicleSoft::SharedLib::CallVoid(F, A); }
bool verif_sl_callonce(const char *L, const char *F, long &R, long A) { return CubicleSoft::SharedLib::CallOnce<long>(L, F, R, A); }
bool verif_sl_calloncevoid(const char *L, const char *F, long A) { return CubicleSoft::SharedLib::CallOnceVoid(L, F, A); }
void verif_sl_module(void (*f)(void *, void *))
{
	CubicleSoft::SharedLib::ModuleUtil M("x");
	CubicleSoft::SharedLib::FunctionUtil F(M, "y");
	f(&M, &F);
	F.LoadFuncPtr();
}

// Inline members of classes that are no templates: taking their address makes the compiler emit them.
typedef CubicleSoft::Sync::TLS VT; typedef CubicleSoft::Sync::TLS::MixedVar VM;
void *(*verif_tls_malloc)(void *, size_t) = &VT::malloc; void *(*verif_tls_realloc)(void *, void *, size_t) = &VT::realloc; void (*verif_tls_free)(void *, void *) = &VT::free;
void (VM::*verif_m1)(bool) = &VM::SetBool; void (VM::*verif_m2)(std::int64_t) = &VM::SetInt; void (VM::*verif_m3)(std::uint64_t) = &VM::SetUInt; void (VM::*verif_m4)(double) = &VM::SetDouble;
bool (VM::*verif_m5[])() = { &VM::IsNone, &VM::IsBool, &VM::IsInt, &VM::IsUInt, &VM::IsDouble, &VM::IsStr, &VM::GetBool };
std::int64_t (VM::*verif_m6)() = &VM::GetInt; std::uint64_t (VM::*verif_m7)() = &VM::GetUInt; double (VM::*verif_m8)() = &VM::GetDouble; char *(VM::*verif_m9)() = &VM::GetStr; size_t (VM::*verif_m10)() = &VM::GetSize;
bool (VM::*verif_m11)(char) = &VM::RemoveTrailingChar; void (VM::*verif_m12)(VT *) = &VM::SetTLS; VT *(VM::*verif_m13)() = &VM::GetTLS;

typedef CubicleSoft::JSON::Serializer VJ;
bool (VJ::*verif_j1)(bool) = &VJ::AppendBool; bool (VJ::*verif_j2)(std::int64_t) = &VJ::AppendInt; bool (VJ::*verif_j3)(std::uint64_t) = &VJ::AppendUInt; bool (VJ::*verif_j4)(double, size_t) = &VJ::AppendDouble;
bool (VJ::*verif_j5)(const char *) = &VJ::AppendStr; bool (VJ::*verif_j6)(const char *, size_t) = &VJ::AppendStr; bool (VJ::*verif_j7)(const char *) = &VJ::Append;
std::uint8_t *(VJ::*verif_j8)() const = &VJ::GetBuffer; size_t (VJ::*verif_j9[])() const = { &VJ::GetCurrPos, &VJ::GetBufferSize }; void (VJ::*verif_j10)() = &VJ::ResetPos; VJ::ModeType (VJ::*verif_j11)() = &VJ::GetCurrMode;
void (VJ::*verif_j12)(bool) = &VJ::SetEscapeSlashes; void (VJ::*verif_j13[])(const char *) = { &VJ::SetKeySplitter, &VJ::SetValSplitter }; bool (VJ::*verif_j14)() = &VJ::IsKeyRequired;
typedef CubicleSoft::Sync::SharedMem VS;
bool (VS::*verif_s1)() = &VS::First; size_t (VS::*verif_s2)() = &VS::GetSize; char *(VS::*verif_s3)() = &VS::RawData;
typedef CubicleSoft::UTF8::File VF;
std::uint64_t (VF::*verif_f1[])() const = { &VF::GetCurrPos, &VF::GetMaxPos };
