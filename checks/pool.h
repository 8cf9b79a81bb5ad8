#pragma once
#include "common.h"
#include "Source/Primitives/Pointer.h"
#include "Source/Strings/String.h"

// shared pointers to objects with their own counter: every reference a container keeps is counted
namespace pool { struct Item { vl::atomic_vint rc; int v; }; const int SIZE = 400; HARNESS Item* items; inline long held() { long n = 0; for (int i = 0; i < SIZE; i++) n += items[i].rc; return n; } }
namespace vl
{
	template<> struct ReferenceCounterOperator<pool::Item, void>
	{
		static atomic_vint* CreateCounter(pool::Item* i) { return &i->rc; }
		static void DeleteReference(atomic_vint* c, void* i) { if (c != &((pool::Item*)i)->rc) sim::fail("lifetime", "the counter of another object is released"); }
	};
}
namespace pool
{
	// pointers and texts in the order of the numbers they stand for
	inline void fill() { items = (Item*)sim::heap_alloc(sizeof(Item) * SIZE); for (int i = 0; i < SIZE; i++) { new(&items[i].rc) vl::atomic_vint(0); items[i].v = i; } }
	inline vl::Ptr<Item> pointer(int v) { return vl::Ptr<Item>(items + v); }
	inline vl::WString text(int v) { wchar_t b[6] = { L'k', wchar_t(L'0' + v / 100), wchar_t(L'0' + v / 10 % 10), wchar_t(L'0' + v % 10), L'!', 0 }; return v % 2 ? vl::WString(b).Sub(1, 3) : vl::WString(b + 1).Left(3); }
	inline int number(const vl::Ptr<Item>& p) { sim::Har h; Item* i = LIB(return p.Obj()); return i ? i->v : -1; }
	inline int number(const vl::WString& w) { if (w.Length() != 3) return -1; return (w[0] - L'0') * 100 + (w[1] - L'0') * 10 + (w[2] - L'0'); }
}
