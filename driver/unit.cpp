// Op interpreter over the containers of CG-3: reads one operation per line from stdin, prints what
// each returns and, on request, everything the container will tell about itself.
#include "stdafx.hpp"
#include "sorted_vector.hpp"
#include "interval_vector.hpp"
#include "flat_unordered_map.hpp"
#include "flat_unordered_set.hpp"
#include "bloomish.hpp"
#include "scoped_stack.hpp"
#include "pool.hpp"
#include "Tag.hpp"
#include "TagTrie.hpp"
#include "Grammar.hpp"
#include <cstdio>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace CG3;
typedef std::vector<uint32_t> U;

static U rest(std::istream& in) {
	U r;
	uint64_t v;
	while (in >> v) {
		r.push_back(static_cast<uint32_t>(v));
	}
	return r;
}

static void show(const char* what, const U& v) {
	std::cout << what;
	for (auto x : v) {
		std::cout << ' ' << x;
	}
	std::cout << '\n';
}

template<typename SV>
static void do_sv(SV* s, int i, const std::string& op, const U& a) {
	SV& v = s[i];
	SV& w = s[1 - i];
	const SV& c = v;
	if (op == "insert") {
		auto p = v.insert(a[0]);
		std::cout << *p.first << ' ' << p.second << ' ' << (p.first - v.begin()) << '\n';
	}
	else if (op == "push") { v.push_back(a[0]); }
	else if (op == "range") { v.insert(a.begin(), a.end()); }
	else if (op == "merge") { v.insert(w.begin(), w.end()); }
	else if (op == "erase") { std::cout << v.erase(a[0]) << '\n'; }
	else if (op == "eraseit") {
		if (!v.empty()) {
			auto it = v.erase(typename SV::const_iterator(v.begin() + a[0] % v.size()));
			std::cout << (it - c.begin()) << '\n';
		}
	}
	else if (op == "erasen") {
		if (!v.empty()) { v.erase_n(a[0] % v.size()); }
	}
	else if (op == "eraserange") { v.erase(a.begin(), a.end()); }
	else if (op == "erasecont") { v.erase(w.begin(), w.end()); }
	else if (op == "find") {
		auto it = c.find(a[0]);
		std::cout << (it - c.begin()) << ' ' << c.find_n(a[0]) << ' ' << c.count(a[0]) << ' ' << c.contains(a[0]) << ' '
			<< (c.lower_bound(a[0]) - c.begin()) << ' ' << (c.upper_bound(a[0]) - c.begin()) << '\n';
	}
	else if (op == "assign") {
		// The overload for its own iterators takes the range to be in order already
		std::deque<uint32_t> d(a.begin(), a.end());
		v.assign(d.begin(), d.end());
	}
	else if (op == "assignit") {
		v.assign(typename SV::const_iterator(w.begin()), typename SV::const_iterator(w.end()));
	}
	else if (op == "copy") { v = w; }
	else if (op == "swap") { v.swap(w); }
	else if (op == "clear") { v.clear(); }
	else if (op == "sort") { v.sort(); }
	else if (op == "pop") { if (!v.empty()) { v.pop_back(); } }
	else if (op == "dump") {
		show("f", U(c.begin(), c.end()));
		show("b", U(c.rbegin(), c.rend()));
		show("c", U(c.cbegin(), c.cend()));
		std::cout << c.size() << ' ' << c.empty();
		if (!c.empty()) {
			std::cout << ' ' << c.front() << ' ' << c.back() << ' ' << v.at(v.size() / 2);
		}
		std::cout << '\n';
	}
}

typedef uint32IntervalVector IV;
static U walk(const IV& v) {
	U r;
	for (auto it = v.begin(); it != v.end(); ++it) {
		r.push_back(*it);
		if (r.size() > 5000) {
			break;
		}
	}
	return r;
}
static void do_iv(IV* s, int i, const std::string& op, const U& a) {
	IV& v = s[i];
	IV& w = s[1 - i];
	if (op == "insert") { std::cout << v.insert(a[0]) << '\n'; }
	else if (op == "push") { std::cout << v.push_back(a[0]) << '\n'; }
	else if (op == "range") { v.insert(a.begin(), a.end()); }
	else if (op == "merge") { v.insert(w.begin(), w.end()); }
	else if (op == "build") { v = IV(a.begin(), a.end()); }
	else if (op == "erase") { std::cout << v.erase(a[0]) << '\n'; }
	else if (op == "find") {
		auto it = v.find(a[0]);
		if (it == v.end()) { std::cout << "end"; }
		else { std::cout << *it; }
		std::cout << ' ' << v.contains(a[0]) << ' ';
		auto lb = v.lower_bound(a[0]);
		if (lb == v.end()) { std::cout << "end\n"; }
		else { std::cout << *lb << '\n'; }
	}
	else if (op == "from") {
		// Iterates onwards from a lower bound, through an assigned iterator
		U r;
		IV::const_iterator it;
		it = v.lower_bound(a[0]);
		for (size_t n = 0; it != v.end() && n < a[1]; ++it, ++n) {
			r.push_back(*it);
		}
		for (size_t n = 0; n < a[1]; ++n) {
			--it;
			if (it == v.end()) {
				break;
			}
			r.push_back(*it);
		}
		show("from", r);
	}
	else if (op == "intersect") { show("x", walk(v.intersect(w))); std::cout << v.intersect(w).size() << '\n'; }
	else if (op == "keep") { v = v.intersect(w); }
	else if (op == "copy") { v = w; }
	else if (op == "clear") { v.clear(); }
	else if (op == "dump") {
		show("f", walk(v));
		U r;
		for (auto it = v.end(); r.size() < 5000;) {
			--it;
			if (it == v.end()) {
				break;
			}
			r.push_back(*it);
		}
		show("b", r);
		std::cout << v.size() << ' ' << v.empty();
		if (!v.empty()) {
			std::cout << ' ' << v.front() << ' ' << v.back();
		}
		std::cout << '\n';
	}
}

typedef uint32FlatHashSet FS;
static U walk(const FS& v) {
	U r;
	for (auto it = v.begin(); it != v.end() && r.size() < 5000; ++it) {
		r.push_back(*it);
	}
	return r;
}
static void do_fs(FS* s, int i, const std::string& op, const U& a) {
	FS& v = s[i];
	FS& w = s[1 - i];
	const FS& c = v;
	if (op == "insert") { v.insert(a[0]); }
	else if (op == "range") { v.insert(a.begin(), a.end()); }
	else if (op == "merge") { v.insert(w.begin(), w.end()); }
	else if (op == "erase") { v.erase(a[0]); }
	else if (op == "eraseit") {
		auto it = v.find(a[0]);
		if (it != v.end()) {
			it = v.erase(it);
			U r;
			for (; it != v.end() && r.size() < 5000; ++it) {
				r.push_back(*it);
			}
			show("r", r);
		}
	}
	else if (op == "find") {
		auto it = v.find(a[0]);
		auto ci = c.find(a[0]);
		std::cout << (it != v.end()) << (ci != c.end()) << c.count(a[0]) << c.contains(a[0]) << ' ';
		if (it != v.end()) { std::cout << *it; }
		std::cout << '\n';
	}
	else if (op == "assign") { v.assign(a.begin(), a.end()); }
	else if (op == "copy") { v = w; }
	else if (op == "swap") { v.swap(w); }
	else if (op == "clear") { v.clear(); }
	else if (op == "reserve") { v.reserve(size_t(1) << a[0]); }
	else if (op == "dump") {
		auto f = walk(v);
		auto u = f;
		std::sort(u.begin(), u.end());
		show("f", u);
		if (!f.empty()) {
			auto it = c.find(f.back()); // The other find may rehash
			U r;
			for (size_t n = 0; n < f.size(); ++n) {
				r.push_back(*it);
				if (n + 1 < f.size()) {
					--it;
				}
			}
			std::reverse(r.begin(), r.end());
			std::cout << "back " << (r == f) << '\n';
		}
		std::cout << c.size() << ' ' << c.empty() << ' ' << (c.capacity() >= c.size()) << '\n';
	}
}

typedef uint32FlatHashMap FM;
static void do_fm(FM* s, int i, const std::string& op, const U& a) {
	FM& v = s[i];
	FM& w = s[1 - i];
	const FM& c = v;
	std::vector<std::pair<const uint32_t, uint32_t>> prs;
	if (op == "range" || op == "assign") {
		for (size_t k = 0; k + 1 < a.size(); k += 2) {
			prs.emplace_back(a[k], a[k + 1]);
		}
	}
	auto pr = [](const U& ks, const FM& m) {
		std::cout << "f";
		for (auto k : ks) {
			std::cout << ' ' << k << ':' << m.find(k)->second;
		}
		std::cout << '\n';
	};
	auto keys = [](FM& m) {
		U r;
		for (auto it = m.begin(); it != m.end() && r.size() < 5000; ++it) {
			r.push_back(it->first);
		}
		return r;
	};
	if (op == "insert") {
		v.insert(std::make_pair(a[0], a[1]));
	}
	else if (op == "range") { v.insert(prs.begin(), prs.end()); }
	else if (op == "set") { v[a[0]] = a[1]; }
	else if (op == "get") { std::cout << v[a[0]] << '\n'; }
	else if (op == "erase") { v.erase(a[0]); }
	else if (op == "eraseit") {
		auto it = v.find(a[0]);
		if (it != v.end()) {
			it = v.erase(it);
			U r;
			for (; it != v.end() && r.size() < 5000; ++it) {
				r.push_back((*it).first);
			}
			show("r", r);
		}
	}
	else if (op == "find") {
		auto it = v.find(a[0]);
		auto ci = c.find(a[0]);
		std::cout << (it != v.end()) << (ci != c.end()) << c.count(a[0]) << c.contains(a[0]) << ' ';
		if (it != v.end()) { std::cout << it->first << ':' << it->second; }
		std::cout << '\n';
	}
	else if (op == "assign") { v.assign(prs.begin(), prs.end()); }
	else if (op == "copy") { v = w; }
	else if (op == "swap") { v.swap(w); }
	else if (op == "clear") { v.clear(); }
	else if (op == "reserve") { v.reserve(size_t(1) << a[0]); }
	else if (op == "dump") {
		auto f = keys(v);
		auto u = f;
		std::sort(u.begin(), u.end());
		pr(u, c);
		if (!f.empty()) {
			auto it = c.find(f.back()); // The other find may rehash
			U r;
			for (size_t n = 0; n < f.size(); ++n) {
				r.push_back(it->first);
				if (n + 1 < f.size()) {
					--it;
				}
			}
			std::reverse(r.begin(), r.end());
			std::cout << "back " << (r == f) << '\n';
		}
		std::cout << c.size() << ' ' << c.empty() << ' ' << (c.capacity() >= c.size()) << '\n';
	}
}

static std::map<uint32_t, std::unique_ptr<Tag>> tags;
static Tag* tag(uint32_t n) {
	auto& t = tags[n];
	if (!t) {
		t.reset(new Tag);
		// Hashes in another order than the numbers, as in a grammar
		t->hash = n * 2654435761u;
		t->number = n;
		t->type = 1u << (n % 4);
	}
	return t.get();
}
static void put(const char* what, const TagVectorSet& s) {
	std::vector<U> r;
	for (auto& tv : s) {
		r.emplace_back();
		for (auto t : tv) {
			r.back().push_back(t->number);
		}
	}
	std::sort(r.begin(), r.end());
	std::cout << what;
	for (auto& u : r) {
		std::cout << " (";
		for (auto x : u) {
			std::cout << ' ' << x;
		}
		std::cout << " )";
	}
	std::cout << '\n';
}
static bool nodes(const trie_t& whole, const trie_t& t, TagVector pre) {
	for (auto& kv : t) {
		auto here = pre;
		here.push_back(kv.first);
		TagList got;
		if (!trie_getTagList(whole, got, &kv) || TagVector(got.begin(), got.end()) != here) {
			return false;
		}
		if (kv.second.trie && !nodes(whole, *kv.second.trie, here)) {
			return false;
		}
	}
	return true;
}
static void do_trie(trie_t* s, int i, const std::string& op, const U& a) {
	trie_t& v = s[i];
	trie_t& w = s[1 - i];
	TagVector tv;
	for (auto x : a) {
		tv.push_back(tag(x));
	}
	if (op == "insert") { std::cout << trie_insert(v, tv) << '\n'; }
	else if (op == "copy") { v = trie_copy(w); }
	else if (op == "delete") { trie_delete(v); v.clear(); }
	else if (op == "swap") { v.swap(w); }
	else if (op == "dump") {
		put("o", trie_getTagsOrdered(v));
		put("t", trie_getTags(v));
		std::cout << trie_singular(v) << ' ';
		for (uint32_t b = 0; b < 4; ++b) {
			std::cout << trie_hasType(v, 1u << b);
		}
		std::cout << ' ' << nodes(v, v, TagVector()) << '\n';
		auto all = trie_getTagList(v);
		TagList lst;
		trie_getTagList(v, lst);
		U n, m;
		for (auto t : all) { n.push_back(t->number); }
		for (auto t : lst) { m.push_back(t->number); }
		std::cout << (n == m) << ' ';
		std::sort(n.begin(), n.end());
		show("all", n);
		std::cout << "same " << (trie_rehash(v) == trie_rehash(w)) << '\n';
		for (auto& t : tags) { t.second->type &= ~T_USED; }
		trie_markused(v);
		U used;
		for (auto& t : tags) {
			if (t.second->type & T_USED) {
				used.push_back(t.first);
			}
		}
		show("used", used);
	}
}

static void do_bloom(uint32Bloomish* s, int i, const std::string& op, const U& a) {
	auto& v = s[i];
	if (op == "insert") { v.insert(a[0]); }
	else if (op == "find") { std::cout << v.matches(a[0]) << '\n'; }
	else if (op == "copy") { v = s[1 - i]; }
	else if (op == "build") { v = uint32Bloomish(s[1 - i]); }
	else if (op == "clear") { v.clear(); }
}

struct Item {
	int n = 0;
	int clears = 0;
	void clear() { ++clears; }
};

// Nested scopes: each level sees its own empty container and finds it as it left it
static void scopes(scoped_stack<U>& ss, std::istream& in, int depth) {
	auto p = ss.get();
	auto q = U();
	std::string op;
	U& start = *p;
	std::cout << "open " << start.size() << '\n';
	while (in >> op) {
		if (op == "(") { scopes(ss, in, depth + 1); }
		else if (op == ")") { if (depth) { break; } }
		else {
			auto x = static_cast<uint32_t>(std::stoul(op));
			p->push_back(x);
			q.push_back(x);
		}
		std::cout << depth << ' ' << (*p == q) << (static_cast<U&>(p) == q) << '\n';
	}
}

// Words whose tags collide in the 32-bit hash, or land on neighbouring values
static void collisions(const std::string& pre, const std::string& post, uint32_t n) {
	std::vector<std::pair<uint32_t, uint32_t>> hs;
	hs.reserve(n);
	auto word = [&](uint32_t i) {
		std::string w = pre;
		for (uint32_t k = i + 30; k; k /= 26) {
			w += static_cast<char>('a' + k % 26);
		}
		return w + post;
	};
	for (uint32_t i = 0; i < n; ++i) {
		auto w = word(i);
		UString u(w.begin(), w.end());
		hs.emplace_back(hash_value(u), i);
	}
	std::sort(hs.begin(), hs.end());
	for (size_t i = 0; i + 1 < hs.size();) {
		size_t j = i + 1;
		while (j < hs.size() && hs[j].first - hs[j - 1].first <= 1) {
			++j;
		}
		if (j - i > 1) {
			for (size_t k = i; k < j; ++k) {
				std::cout << (k > i ? " " : "") << word(hs[k].second);
			}
			std::cout << '\n';
		}
		i = j;
	}
}

int unit_main(int argc, char** argv) {
	if (argc == 4) {
		collisions(argv[1], argv[2], static_cast<uint32_t>(std::stoul(argv[3])));
		std::cout.flush();
		return 0;
	}
	std::ios::sync_with_stdio(false);
	uint32SortedVector sv[2];
	sorted_vector<uint32_t, std::greater<uint32_t>> sg[2];
	IV iv[2];
	FS fs[2];
	FM fm[2];
	trie_t tr[2];
	uint32Bloomish bl[2];
	pool<Item> po;
	std::map<int, Item*> out;
	int made = 0;
	scoped_stack<U> ss;
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream in(line);
		std::string kind, op;
		int i = 0;
		in >> kind >> i >> op;
		if (kind == "ss") {
			scopes(ss, in, 0);
			continue;
		}
		U a = rest(in);
		if (kind == "sv") { do_sv(sv, i, op, a); }
		else if (kind == "sg") { do_sv(sg, i, op, a); }
		else if (kind == "iv") { do_iv(iv, i, op, a); }
		else if (kind == "fs") { do_fs(fs, i, op, a); }
		else if (kind == "fm") { do_fm(fm, i, op, a); }
		else if (kind == "trie") { do_trie(tr, i, op, a); }
		else if (kind == "bloom") { do_bloom(bl, i, op, a); }
		else if (kind == "pool") {
			if (op == "get") {
				auto x = po.get();
				if (x) {
					std::cout << "old " << x->n << ' ' << out.count(x->n) << '\n';
				}
				else {
					x = new Item;
					x->n = ++made;
					std::cout << "new " << x->n << '\n';
				}
				out[x->n] = x;
			}
			else if (op == "put" && out.count(a[0])) {
				auto x = out[a[0]];
				auto c = x->clears;
				po.put(x);
				std::cout << "cleared " << (x->clears - c) << '\n';
				out.erase(a[0]);
			}
		}
	}
	std::cout.flush();
	for (auto x : out) {
		delete x.second;
	}
	return 0;
}
