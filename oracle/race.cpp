// Records the memory accesses of parallel strands (hooks inserted by -Zsanitizer=thread) and looks for
// two strands that may run at the same time and touch the same byte, one of them writing.
// Not instrumented itself.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <unordered_map>
#include <vector>

namespace {
// strand: 2*item = pull, 2*item+1 = run; clock: releases of the strand before its last access
struct Acc { uint32_t strand, clock; uint8_t r, w; };
typedef std::map<uint32_t, uint32_t> View; // strand -> number of its releases that are visible
typedef std::unordered_map<uintptr_t, std::vector<Acc>> Cells; // by address / 8
struct Region {
	uintptr_t frame, lo; // where it was entered: frame, and bottom of that thread's stack
	Cells cells; uint32_t strand; bool on;
	std::map<uint32_t, uint32_t> clock;        // releases per strand
	std::map<uint32_t, View> view;             // what each strand has acquired
	std::unordered_map<uintptr_t, View> sync;  // what was released through each atomic
	unsigned long number;
};
struct State {
	std::vector<Region> stack;
	std::vector<void *> deferred;
	bool busy = false;
	unsigned long accesses = 0, cells = 0, pairs = 0, regions = 0, shared = 0;
	char conflict[400] = {0};
};
thread_local State *t_state = nullptr;
thread_local bool t_on = false;
thread_local uintptr_t t_lo = 0, t_hi = 0; // this thread's stack
void find_stack()
{
	pthread_attr_t at; void *lo; size_t n;
	pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at);
	t_lo = (uintptr_t)lo; t_hi = (uintptr_t)lo + n;
}

// the stack of the task itself: all of it, if the task has a thread of its own, or what lies below the frame of the region
inline bool is_private(uintptr_t a, const Region &reg) { return a >= t_lo && a < t_hi && (reg.lo != t_lo || a < reg.frame); }

inline bool concurrent(uint32_t a, uint32_t b)
{
	if (a == b) return false;
	bool ra = a & 1, rb = b & 1;
	if (ra && rb) return true;
	if (!ra && !rb) return false;         // pulls are serialised
	uint32_t run = ra ? a >> 1 : b >> 1, pull = ra ? b >> 1 : a >> 1;
	return pull > run;                    // an item runs after its own and all earlier pulls
}

void add(State &s, Region &reg, uintptr_t cell, uint8_t r, uint8_t w)
{
	uint32_t strand = reg.strand;
	std::vector<Acc> &v = reg.cells[cell];
	size_t mine = v.size();
	for (size_t i = v.size(); i-- > 0;) {
		if (v[i].strand == strand) { mine = i; continue; }
		uint8_t m = (w & (v[i].r | v[i].w)) | (r & v[i].w);
		if (!m) continue;
		s.pairs++;
		if (!concurrent(v[i].strand, strand) || s.conflict[0]) continue;
		// ordered by a lock or another release/acquire pair
		auto vi = reg.view.find(strand);
		if (vi != reg.view.end()) { auto x = vi->second.find(v[i].strand); if (x != vi->second.end() && x->second > v[i].clock) continue; }
		snprintf(s.conflict, sizeof s.conflict, "region %lu: %s of item %u (%s) and %s of item %u (%s) touch the same byte (frame%+ld, mask %02x)", reg.number,
			v[i].strand & 1 ? "execution" : "pull", v[i].strand >> 1, v[i].w & m ? "write" : "read",
			strand & 1 ? "execution" : "pull", strand >> 1, w & m ? "write" : "read", long((cell << 3) - reg.frame), m);
	}
	if (mine == v.size()) { if (v.size() == 1) s.shared++; if (v.empty()) s.cells++; v.push_back({strand, 0, 0, 0}); }
	v[mine].r |= r; v[mine].w |= w; v[mine].clock = reg.clock[strand];
}
void sync_op(const volatile void *p, int order, bool load, bool store)
{
	if (!t_on || t_state->busy) return;
	State &s = *t_state;
	s.busy = true;
	for (Region &reg : s.stack) {
		View &var = reg.sync[(uintptr_t)p];
		if (load && (order == 1 || order == 2 || order == 4 || order == 5))
			for (auto &x : var) { uint32_t &y = reg.view[reg.strand][x.first]; if (y < x.second) y = x.second; }
		if (store && order >= 3) {
			uint32_t c = ++reg.clock[reg.strand];
			for (auto &x : reg.view[reg.strand]) { uint32_t &y = var[x.first]; if (y < x.second) y = x.second; }
			var[reg.strand] = c;
		}
	}
	s.busy = false;
}
inline void access(const void *p, size_t n, bool write)
{
	if (!t_on || !n) return;
	State &s = *t_state;
	if (s.busy) return;
	Region &reg = s.stack.back();
	uintptr_t a = (uintptr_t)p;
	if (is_private(a, reg)) return; // this task's own stack
	s.busy = true;
	s.accesses++;
	while (n) {
		uintptr_t off = a & 7, k = 8 - off < n ? 8 - off : n;
		uint8_t mask = uint8_t(((1u << k) - 1) << off);
		add(s, reg, a >> 3, write ? 0 : mask, write ? mask : 0);
		a += k; n -= k;
	}
	s.busy = false;
}
}

extern "C" {
void mc_race_begin()
{
	if (!t_state) {
		t_state = new State;
		find_stack();
	}
	State &s = *t_state;
	s.stack.clear(); s.conflict[0] = 0;
	s.accesses = s.cells = s.pairs = s.regions = s.shared = 0;
}
// the calling thread runs an item for the one with this state, which waits
uintptr_t mc_race_state() { return (uintptr_t)t_state; }
void mc_race_adopt(uintptr_t state)
{
	t_state = (State *)state;
	t_on = false;
	find_stack();
}
void mc_race_region_enter(uintptr_t frame)
{
	State &s = *t_state;
	s.busy = true;
	s.stack.push_back(Region());
	s.stack.back().frame = frame; s.stack.back().lo = t_lo; s.stack.back().strand = 0; s.stack.back().on = false; s.stack.back().number = s.regions++;
	t_on = false;
	s.busy = false;
}
void mc_race_strand(uint32_t strand)
{
	State &s = *t_state;
	s.stack.back().strand = strand; s.stack.back().on = true;
	t_on = true;
}
void mc_race_pause()
{
	if (t_state->stack.size()) t_state->stack.back().on = false;
	t_on = false;
}
void mc_race_region_leave()
{
	State &s = *t_state;
	t_on = false; s.busy = true;
	Region reg = std::move(s.stack.back());
	s.stack.pop_back();
	if (s.stack.size()) {
		// everything inside belongs to the strand of the surrounding region
		Region &up = s.stack.back();
		for (auto &c : reg.cells) {
			uintptr_t a = c.first << 3;
			if (is_private(a, up)) continue;
			for (auto &x : c.second) add(s, up, c.first, x.r, x.w);
		}
		t_on = up.on;
	} else {
		for (void *p : s.deferred) free(p);
		s.deferred.clear();
	}
	s.busy = false;
}
// nonzero: the block is kept until the outermost region ends, so that no address is used twice
int mc_race_defer_free(void *p)
{
	if (!t_state || t_state->busy || t_state->stack.empty()) return 0;
	t_state->busy = true;
	t_state->deferred.push_back(p);
	t_state->busy = false;
	return 1;
}
const char *mc_race_result(unsigned long *out)
{
	State &s = *t_state;
	out[0] = s.accesses; out[1] = s.cells; out[2] = s.pairs; out[3] = s.regions; out[4] = s.shared;
	return s.conflict;
}

#define D(n) \
	void __tsan_read##n(void *a) { access(a, n, false); } \
	void __tsan_write##n(void *a) { access(a, n, true); } \
	void __tsan_read##n##_pc(void *a, void *) { access(a, n, false); } \
	void __tsan_write##n##_pc(void *a, void *) { access(a, n, true); } \
	void __tsan_read_write##n(void *a) { access(a, n, false); access(a, n, true); } \
	void __tsan_unaligned_read##n(void *a) { access(a, n, false); } \
	void __tsan_unaligned_write##n(void *a) { access(a, n, true); } \
	void __tsan_unaligned_read_write##n(void *a) { access(a, n, false); access(a, n, true); } \
	void __tsan_volatile_read##n(void *a) { access(a, n, false); } \
	void __tsan_volatile_write##n(void *a) { access(a, n, true); } \
	void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, false); } \
	void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, true); }
D(1) D(2) D(4) D(8) D(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_read_range(void *a, long n) { access(a, n, false); }
void __tsan_write_range(void *a, long n) { access(a, n, true); }
void *__tsan_memcpy(void *a, const void *b, size_t n) { access(b, n, false); access(a, n, true); return memcpy(a, b, n); }
void *__tsan_memmove(void *a, const void *b, size_t n) { access(b, n, false); access(a, n, true); return memmove(a, b, n); }
void *__tsan_memset(void *a, int b, size_t n) { access(a, n, true); return memset(a, b, n); }
// other items may run before it; then: what replaces 0, or compares and succeeds, may have taken a lock, other operations release it
void mc_point();
void mc_lock(uintptr_t, int);
// atomic operations synchronise; they are performed and not recorded as accesses
#define A(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int o) { mc_point(); sync_op(a, o, true, false); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int o) { mc_point(); __atomic_store_n(a, v, 5); sync_op(a, o, false, true); mc_lock((uintptr_t)a, 0); } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) { mc_point(); sync_op(a, o, true, true); T old = __atomic_exchange_n(a, v, 5); mc_lock((uintptr_t)a, !old && v); return old; } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o) { mc_point(); sync_op(a, o, true, true); mc_lock((uintptr_t)a, 0); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o) { mc_point(); sync_op(a, o, true, true); mc_lock((uintptr_t)a, 0); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o) { mc_point(); sync_op(a, o, true, true); mc_lock((uintptr_t)a, 0); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o) { mc_point(); sync_op(a, o, true, true); T old = __atomic_fetch_or(a, v, 5); mc_lock((uintptr_t)a, !old && v); return old; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int o) { mc_point(); sync_op(a, o, true, true); mc_lock((uintptr_t)a, 0); return __atomic_fetch_xor(a, v, 5); } \
	T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int o) { mc_point(); sync_op(a, o, true, true); mc_lock((uintptr_t)a, 0); return __atomic_fetch_nand(a, v, 5); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { mc_point(); bool ok = __atomic_compare_exchange_n(a, c, v, false, 5, 5); sync_op(a, ok ? o : f, true, ok); if (ok) mc_lock((uintptr_t)a, 1); return ok; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { mc_point(); bool ok = __atomic_compare_exchange_n(a, c, v, false, 5, 5); sync_op(a, ok ? o : f, true, ok); if (ok) mc_lock((uintptr_t)a, 1); return ok; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { mc_point(); bool ok = __atomic_compare_exchange_n(a, &c, v, false, 5, 5); sync_op(a, ok ? o : f, true, ok); if (ok) mc_lock((uintptr_t)a, 1); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
