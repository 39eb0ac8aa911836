// C08 circular buffer, C10 intrusive heap, C11 intrusive list.
#include "vp.h"
#include <crab/crab.hpp>
#include <crab/intrusive_heap.hpp>
#include <crab/intrusive_list.hpp>
#include <string>
#include <vector>

// ---- C08 -------------------------------------------------------------------------------------------------------
// reference content: expected bytes in order
struct Ref {
	std::vector<uint8_t> q;
	size_t cap;
};
struct CountSrc : crab::IStream {  // gives at most `left` symbolic bytes, at most `chunk` at a time
	Ref *log;
	size_t left, chunk;
	size_t read_some(uint8_t *val, size_t count) override {
		size_t n = std::min(std::min(count, left), chunk);
		for (size_t i = 0; i < n; i++) {
			val[i] = vp_sym<uint8_t>("in");
			log->q.push_back(val[i]);
		}
		left -= n;
		return n;
	}
	using crab::IStream::read_some;
};
struct CountSink : crab::OStream {
	std::vector<uint8_t> got;
	size_t left, chunk;
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t n = std::min(std::min(count, left), chunk);
		got.insert(got.end(), val, val + n);
		left -= n;
		return n;
	}
	using crab::OStream::write_some;
};
static void buf_check(crab::Buffer &b, Ref &r) {
	size_t s = r.q.size();
	vp_assert(b.size() == s, "size is what was accepted and not taken");
	vp_assert(b.empty() == (s == 0), "empty agrees");
	vp_assert(b.full() == (s == r.cap), "full agrees");
	vp_assert(b.capacity() == r.cap, "capacity");
	size_t a1 = b.read_count(), a2 = b.read_count2(), w1 = b.write_count(), w2 = b.write_count2();
	vp_assert(a1 + a2 == s, "readable windows cover the content");
	vp_assert(w1 + w2 == r.cap - s, "writable windows cover the free space");
	vp_assert(s == 0 || a1 != 0, "content is reachable through the first window");
	vp_assert(s == r.cap || w1 != 0, "free space is reachable through the first window");
	bool same = true;
	for (size_t i = 0; i < a1; i++)
		same &= b.read_ptr()[i] == r.q[i];
	for (size_t i = 0; i < a2; i++)
		same &= b.read_ptr2()[i] == r.q[a1 + i];
	vp_assert(same, "windows show the content in order");
	// writable windows do not overlap the readable ones: overwrite them with arbitrary bytes
	for (size_t i = 0; i < w1; i++)
		b.write_ptr()[i] = vp_sym<uint8_t>("junk");
	for (size_t i = 0; i < w2; i++)
		b.write_ptr2()[i] = vp_sym<uint8_t>("junk");
	bool still = true;
	for (size_t i = 0; i < a1; i++)
		still &= b.read_ptr()[i] == r.q[i];
	for (size_t i = 0; i < a2; i++)
		still &= b.read_ptr2()[i] == r.q[a1 + i];
	vp_assert(still, "free space does not overlap the content");
	for (size_t k = 0; k <= s + 1; k++) {
		uint8_t tmp[16];
		bool ok = b.peek(tmp, k);
		vp_assert(ok == (k <= s), "peek succeeds exactly when enough is there");
		bool p = true;
		for (size_t i = 0; ok && i < k; i++)
			p &= tmp[i] == r.q[i];
		vp_assert(p, "peek shows the content");
	}
}
static void buf_write(crab::Buffer &b, Ref &r, size_t n) {
	uint8_t t[16];
	for (size_t i = 0; i < n; i++)
		t[i] = vp_sym<uint8_t>("w");
	size_t room = r.cap - r.q.size();
	size_t got = b.write_some(t, n);
	vp_assert(got <= n && got <= room && (got != 0 || n == 0 || room == 0), "write_some accepts some of what fits");
	r.q.insert(r.q.end(), t, t + got);
}
static void buf_read(crab::Buffer &b, Ref &r, size_t n) {
	uint8_t t[16];
	size_t s = r.q.size();
	size_t got = b.read_some(t, n);
	vp_assert(got <= n && got <= s && (got != 0 || n == 0 || s == 0), "read_some gives some of what is there");
	bool same = true;
	for (size_t i = 0; i < got; i++)
		same &= t[i] == r.q[i];
	vp_assert(same, "bytes come out in order");
	r.q.erase(r.q.begin(), r.q.begin() + got);
}
static void buf_op(crab::Buffer &b, Ref &r) {
	size_t s = r.q.size(), room = r.cap - s;
	switch (vp_choice(11, "op")) {
	case 0: buf_write(b, r, vp_choice(r.cap + 2, "n")); break;
	case 1: buf_read(b, r, vp_choice(r.cap + 2, "n")); break;
	case 2: {  // direct write
		size_t n = vp_choice(room + 1, "n"), w1 = b.write_count();
		for (size_t i = 0; i < n; i++) {
			uint8_t v = vp_sym<uint8_t>("w");
			(i < w1 ? b.write_ptr()[i] : b.write_ptr2()[i - w1]) = v;
			r.q.push_back(v);
		}
		b.did_write(n);
		break;
	}
	case 3: {  // direct read
		size_t n = vp_choice(s + 1, "n");
		b.did_read(n);
		r.q.erase(r.q.begin(), r.q.begin() + n);
		break;
	}
	case 4: {
		size_t n = vp_choice(s + 1, "n");
		b.did_write_undo(n);
		r.q.resize(s - n);
		break;
	}
	case 5: {  // committing more than there is must be refused
		bool t = false;
		size_t w = vp_choice(3, "which"), n = 1 + vp_choice(2, "n");
		try {
			if (w == 0)
				b.did_write(room + n);
			else if (w == 1)
				b.did_read(s + n);
			else
				b.did_write_undo(s + n);
		} catch (const std::logic_error &) {
			t = true;
		}
		vp_assert(t, "impossible commits are refused");
		b.clear();
		r.q.clear();
		break;
	}
	case 6:
		if (vp_flag("resize")) {
			r.cap = vp_choice(5, "cap");
			b.clear(r.cap);
		} else
			b.clear();
		r.q.clear();
		break;
	case 7: {
		CountSrc src;
		src.log = &r;
		src.left = vp_choice(r.cap + 2, "n");
		src.chunk = 1 + vp_choice(2, "chunk") * 7;
		size_t l = src.left;
		size_t got = b.read_from(src);
		vp_assert(got == l - src.left && got == r.q.size() - s, "read_from reports what it took");
		vp_assert(src.left == 0 || r.q.size() == r.cap, "read_from stops only when source or space is exhausted");
		break;
	}
	case 8: {
		CountSink k;
		k.left = vp_choice(r.cap + 2, "n");
		k.chunk = 1 + vp_choice(2, "chunk") * 7;
		size_t l = k.left, mx = vp_choice(r.cap + 2, "max");
		size_t got = mx == r.cap + 1 ? (mx = 99, b.write_to(k)) : b.write_to(k, mx);
		vp_assert(got == k.got.size(), "write_to reports what it moved");
		vp_assert(got <= mx && (got == mx || got == s || got == l), "write_to stops only at limit, end or full sink");
		bool same = true;
		for (size_t i = 0; i < got && i < s; i++)
			same &= k.got[i] == r.q[i];
		vp_assert(same, "write_to keeps the order");
		r.q.erase(r.q.begin(), r.q.begin() + std::min(got, s));
		break;
	}
	case 9: {
		CountSrc src;
		src.log = &r;
		src.left = vp_choice(r.cap + 2, "n");
		src.chunk = 99;
		size_t l = src.left, need = vp_choice(r.cap + 2, "need");
		bool ok = b.read_enough_data(src, need);
		vp_assert(ok == (r.q.size() >= need), "read_enough_data tells whether enough is there");
		vp_assert(ok || src.left == 0 || r.q.size() == r.cap, "it gives up only when source or space is exhausted");
		(void)l;
		break;
	}
	default: {  // exact read and write
		size_t n = vp_choice(r.cap + 2, "n");
		bool t = false;
		uint8_t tmp[16];
		for (size_t i = 0; i < 16; i++)
			tmp[i] = (uint8_t)i;
		bool wr = vp_flag("write");
		try {
			if (wr)
				b.write(tmp, n);
			else
				b.read(tmp, n);
		} catch (const std::runtime_error &) {
			t = true;
		}
		vp_assert(t == (n > (wr ? room : s)), "exact transfer throws exactly when it cannot be done");
		if (wr)
			r.q.insert(r.q.end(), tmp, tmp + std::min(n, room));
		else {
			bool same = true;
			for (size_t i = 0; i < std::min(n, s); i++)
				same &= tmp[i] == r.q[i];
			vp_assert(same, "exact read gives the content");
			r.q.erase(r.q.begin(), r.q.begin() + std::min(n, s));
		}
	}
	}
}
extern "C" void h_buffer() {
	Ref r;
	r.cap = vp_choice((size_t)vp_param("cap", 4), "capacity");
	crab::Buffer b(r.cap);
	buf_check(b, r);
	// every reachable state: r.cap bytes in, `rd` out, then `w` in again or `u` taken back
	if (r.cap && vp_flag("prefix")) {
		buf_write(b, r, r.cap);
		vp_assert(r.q.size() == r.cap, "an empty buffer takes its capacity at once");
		size_t rd = vp_choice(r.cap, "rd");
		buf_read(b, r, rd);
		if (vp_flag("undo")) {
			size_t u = vp_choice(r.q.size() + 1, "u");
			b.did_write_undo(u);
			r.q.resize(r.q.size() - u);
		} else if (rd)
			buf_write(b, r, 1 + vp_choice(rd, "w"));
		buf_check(b, r);
	}
	for (int i = 0; i < (int)vp_param("ops", 2); i++) {
		buf_op(b, r);
		buf_check(b, r);
	}
	vp_cover("done");
}

// ---- C10 -------------------------------------------------------------------------------------------------------
struct Node {
	uint8_t key = 0;
	crab::IntrusiveHeapIndex idx;
};
struct NodeLess {  // max heap of "greater" = min heap, as the run loop uses it
	bool operator()(const Node &a, const Node &b) const { return a.key > b.key; }
};
template<bool H>
struct HeapTest {
	static const size_t MAXN = 16;
	crab::IntrusiveHeap<Node, &Node::idx, NodeLess, H> heap;
	Node n[MAXN];
	bool in[MAXN] = {};
	size_t cnt = 0, total;
	void check() {
		vp_assert(heap.empty() == (cnt == 0), "empty agrees");
		for (size_t i = 0; i < total; i++)
			vp_assert(n[i].idx.in_heap() == in[i], "every element knows whether it is in the heap");
		if (cnt) {
			Node &f = heap.front();
			size_t fi = (size_t)(&f - n);
			vp_assert(fi < total && in[fi], "front is an element of the heap");
			bool mn = true;
			for (size_t i = 0; i < total; i++)
				if (in[i])
					mn &= f.key <= n[i].key;
			vp_assert(mn, "front is a minimum");
		}
	}
	void insert(size_t i) {
		vp_assert(heap.insert(n[i]) == !in[i], "insert reports whether it was new");
		if (!in[i]) {
			in[i] = true;
			cnt++;
		}
	}
	void erase(size_t i) {
		vp_assert(heap.erase(n[i]) == (in[i] ? 1u : 0u), "erase reports whether it was there");
		if (in[i]) {
			in[i] = false;
			cnt--;
		}
	}
	void pop() {
		size_t fi = (size_t)(&heap.front() - n);
		heap.pop_front();
		in[fi] = false;
		cnt--;
	}
	void op() {
		switch (vp_choice(4, "op")) {
		case 0: insert(vp_choice(total, "i")); break;
		case 1: erase(vp_choice(total, "i")); break;
		case 2:
			if (cnt) pop();
			break;
		default: {  // key update, the way a timer is moved
			size_t i = vp_choice(total, "i");
			erase(i);
			n[i].key = vp_sym<uint8_t>("newkey");
			insert(i);
		}
		}
	}
	void drain() {
		while (cnt) {
			pop();
			check();
		}
		vp_assert(heap.empty(), "nothing is left over");
	}
};
template<bool H>
static void heap_case(size_t total, size_t ops) {
	HeapTest<H> t;
	t.total = total;
	for (size_t i = 0; i < total; i++)
		t.n[i].key = vp_sym<uint8_t>("key");
	size_t k = vp_choice(total + 1, "filled");
	t.heap.reserve(k);
	for (size_t i = 0; i < k; i++)
		t.insert(i);
	t.heap.reserve(total + 5);
	t.check();
	for (size_t i = 0; i < ops; i++) {
		t.op();
		t.check();
	}
	t.drain();
}
extern "C" void h_heap() {
	heap_case<false>((size_t)vp_param("total", 3), (size_t)vp_param("ops", 2));
	vp_cover("done");
}
extern "C" void h_heap_checked() {
	heap_case<true>((size_t)vp_param("total", 3), 1);
	vp_cover("done");
}
// removal of any one element from a larger heap (an element from another subtree takes its place)
extern "C" void h_heap_erase() {
	HeapTest<false> t;
	t.total = (size_t)vp_param("total", 6);
	for (size_t i = 0; i < t.total; i++)
		t.n[i].key = vp_sym<uint8_t>("key");
	// any heap-shaped arrangement: insertion of keys already in heap order keeps them where they are
	bool shaped = true;
	for (size_t i = 1; i < t.total; i++)
		shaped &= t.n[(i - 1) / 2].key < t.n[i].key;
	vp_assume(shaped);
	for (size_t i = 0; i < t.total; i++)
		t.insert(i);
	t.check();
	t.erase(vp_choice(t.total, "i"));
	t.check();
	t.drain();
	vp_cover("done");
}

// four levels: all heap-shaped arrangements of a few distinct keys, removal of any element, insertion, update
extern "C" void h_heap_levels() {
	HeapTest<false> t;
	t.total = (size_t)vp_param("total", 13);
	size_t kinds = (size_t)vp_param("kinds", 2);
	for (size_t i = 0; i < t.total; i++)
		t.n[i].key = (uint8_t)(1 + (i ? t.n[(i - 1) / 2].key - 1 + vp_choice(kinds - (t.n[(i - 1) / 2].key - 1), "key") : 0));
	for (size_t i = 0; i < t.total; i++)
		t.insert(i);
	t.check();
	size_t i = vp_choice(t.total, "i");
	t.erase(i);
	t.check();
	if (vp_flag("again")) {
		t.n[i].key = (uint8_t)vp_choice(kinds + 2, "newkey");
		t.insert(i);
		t.check();
	}
	t.drain();
	vp_cover("done");
}

// ---- C11 -------------------------------------------------------------------------------------------------------
struct Item {
	int pad = 0;
	crab::IntrusiveNode<Item> link;
	size_t id = 0;
};
typedef crab::IntrusiveList<Item, &Item::link> List;
static void list_check(List &l, const std::vector<size_t> &want) {
	vp_assert(l.empty() == want.empty(), "empty agrees");
	size_t k = 0;
	for (auto it = l.begin(); it != l.end(); ++it) {
		vp_assert(k < want.size() && it->id == want[k], "iteration visits exactly the linked elements in order");
		if (k >= want.size())
			return;
		k++;
	}
	vp_assert(k == want.size(), "iteration visits all linked elements");
	auto it = l.end();
	for (size_t j = want.size(); j-- > 0;) {
		--it;
		vp_assert((*it).id == want[j], "backwards too");
	}
	vp_assert(it == l.begin(), "backwards iteration ends at the beginning");
	for (size_t j = 0; j < want.size(); j++)
		vp_assert((it++)->id == want[j], "forwards again");
	vp_assert(it == l.end(), "to the end");
	if (!want.empty())
		vp_assert(it-- == l.end() && it->id == want.back(), "and one back");
	if (!want.empty())
		vp_assert(l.front().id == want.front() && l.back().id == want.back(), "front and back");
}
static size_t pos_of(const std::vector<size_t> &v, size_t x) {
	size_t i = 0;
	while (i < v.size() && v[i] != x)
		i++;
	return i;
}
extern "C" void h_list() {
	size_t total = (size_t)vp_param("total", 3), ops = (size_t)vp_param("ops", 4);
	std::unique_ptr<List> l[2] = {std::unique_ptr<List>(new List), std::unique_ptr<List>(new List)};
	std::unique_ptr<Item> it[4];
	std::vector<size_t> want[2];
	auto where = [&](size_t i) -> int { return pos_of(want[0], i) < want[0].size() ? 0 : pos_of(want[1], i) < want[1].size() ? 1 : -1; };
	for (size_t i = 0; i < total; i++) {
		it[i].reset(new Item);
		it[i]->id = i;
	}
	for (size_t o = 0; o < ops; o++) {
		size_t op = vp_choice(6, "op"), i = vp_choice(total, "i");
		size_t li = op <= 2 ? vp_choice(2, "list") : 0;
		int w = where(i);
		switch (op) {
		case 0:
			l[li]->push_back(*it[i]);
			if (w < 0)
				want[li].push_back(i);
			break;
		case 1:
			l[li]->push_front(*it[i]);
			if (w < 0)
				want[li].insert(want[li].begin(), i);
			break;
		case 2: {
			size_t at = vp_choice(want[li].size() + 1, "at");
			auto p = l[li]->begin();
			for (size_t k = 0; k < at; k++)
				p++;
			l[li]->insert(p, *it[i]);
			if (w < 0)
				want[li].insert(want[li].begin() + at, i);
			break;
		}
		case 3:
			it[i]->link.unlink();
			if (w >= 0)
				want[w].erase(want[w].begin() + pos_of(want[w], i));
			if (vp_flag("twice"))
				it[i]->link.unlink();
			break;
		case 4:  // destroyed while linked
			it[i].reset(new Item);
			it[i]->id = i;
			if (w >= 0)
				want[w].erase(want[w].begin() + pos_of(want[w], i));
			break;
		default:  // walk and unlink every element but i
			for (int k = 0; k < 2; k++) {
				for (auto p = l[k]->begin(); p != l[k]->end();) {
					Item &x = *p;
					if (x.id != i)
						x.link.unlink();
					else
						++p;
				}
				bool keep = w == k;
				want[k].clear();
				if (keep)
					want[k].push_back(i);
			}
		}
		for (size_t k = 0; k < total; k++)
			vp_assert(it[k]->link.in_list() == (where(k) >= 0), "in_list agrees");
		list_check(*l[0], want[0]);
		list_check(*l[1], want[1]);
	}
	vp_cover("done");
}
