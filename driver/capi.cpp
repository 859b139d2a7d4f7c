// Interpreter of library calls: one call per line, fields separated by tabs.
#include "cg3.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using namespace std;

static vector<uint32_t> to32(const string& s) {
	vector<uint32_t> o;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
		uint32_t v = n == 0 ? c : n == 1 ? c & 0x1f : n == 2 ? c & 0xf : c & 7;
		++i;
		while (n-- > 0) {
			v = (v << 6) | (static_cast<unsigned char>(s[i++]) & 0x3f);
		}
		o.push_back(v);
	}
	return o;
}

static string to8(const vector<uint32_t>& v) {
	string o;
	for (auto c : v) {
		if (c < 0x80) {
			o += char(c);
		}
		else if (c < 0x800) {
			o += char(0xc0 | (c >> 6));
			o += char(0x80 | (c & 0x3f));
		}
		else if (c < 0x10000) {
			o += char(0xe0 | (c >> 12));
			o += char(0x80 | ((c >> 6) & 0x3f));
			o += char(0x80 | (c & 0x3f));
		}
		else {
			o += char(0xf0 | (c >> 18));
			o += char(0x80 | ((c >> 12) & 0x3f));
			o += char(0x80 | ((c >> 6) & 0x3f));
			o += char(0x80 | (c & 0x3f));
		}
	}
	return o;
}

static vector<uint16_t> to16(const vector<uint32_t>& v) {
	vector<uint16_t> o;
	for (auto c : v) {
		if (c >= 0x10000) {
			o.push_back(uint16_t(0xd800 + ((c - 0x10000) >> 10)));
			o.push_back(uint16_t(0xdc00 + ((c - 0x10000) & 0x3ff)));
		}
		else {
			o.push_back(uint16_t(c));
		}
	}
	return o;
}

static cg3_tag* mk(cg3_applicator* a, const string& enc, const string& s) {
	auto v = to32(s);
	if (enc == "8") {
		return cg3_tag_create_u8(a, s.c_str());
	}
	if (enc == "16") {
		auto w = to16(v);
		w.push_back(0);
		return cg3_tag_create_u16(a, w.data());
	}
	v.push_back(0);
	if (enc == "32") {
		return cg3_tag_create_u32(a, v.data());
	}
	wstring w(v.begin(), v.end() - 1);
	return cg3_tag_create_w(a, w.c_str());
}

// The text of a tag, through every encoding; they are printed one by one if they are not the same
static string text(cg3_tag* t) {
	string a = cg3_tag_gettext_u8(t);
	vector<uint32_t> v;
	for (auto p = cg3_tag_gettext_u32(t); *p; ++p) {
		v.push_back(*p);
	}
	string b = to8(v);
	v.clear();
	for (auto p = cg3_tag_gettext_u16(t); *p; ++p) {
		if (*p >= 0xd800 && *p < 0xdc00) {
			v.push_back(0x10000 + ((*p - 0xd800u) << 10) + (p[1] - 0xdc00u));
			++p;
		}
		else {
			v.push_back(*p);
		}
	}
	string c = to8(v);
	v.clear();
	for (auto p = cg3_tag_gettext_w(t); *p; ++p) {
		v.push_back(uint32_t(*p));
	}
	string d = to8(v);
	if (a == b && b == c && c == d) {
		return a;
	}
	return "DIFFERENT:" + a + "|" + b + "|" + c + "|" + d;
}

static void dump(cg3_reading* r, bool del) {
	string kind = del ? "D" : "R";
	while (r) {
		cout << kind;
		for (size_t i = 0; i < cg3_reading_numtags(r); ++i) {
			cout << '\t' << text(cg3_reading_gettag(r, i));
		}
		cout << "\nT";
		for (size_t i = 0; i < cg3_reading_numtraces(r); ++i) {
			cout << '\t' << cg3_reading_gettrace(r, i);
		}
		cout << '\n';
		r = cg3_reading_numsubreadings(r) ? cg3_reading_getsubreading(r, 1) : nullptr;
		kind = "S";
	}
}

static string slurp(const string& fn) {
	ifstream f(fn, ios::binary);
	stringstream ss;
	ss << f.rdbuf();
	return ss.str();
}

int capi_main(int, char**) {
	map<string, void*> o;
	string line;
	if (!cg3_init(stdin, stdout, stderr)) {
		return 3;
	}
	while (getline(cin, line)) {
		vector<string> f;
		stringstream ss(line);
		string x;
		while (getline(ss, x, '\t')) {
			f.push_back(x);
		}
		const auto& op = f[0];
		if (op == "grammar") {
			o[f[1]] = cg3_grammar_load(f[2].c_str());
		}
		else if (op == "grammarbuf") {
			string s = slurp(f[2]);
			o[f[1]] = cg3_grammar_load_buffer(s.data(), s.size());
		}
		else if (op == "app") {
			o[f[1]] = cg3_applicator_create(o[f[2]]);
		}
		else if (op == "flags") {
			cg3_applicator_setflags(o[f[1]], uint32_t(stoul(f[2])));
		}
		else if (op == "sections") {
			uint32_t n = uint32_t(stoul(f[2]));
			cg3_applicator_setoption(o[f[1]], CG3O_SECTIONS, &n);
		}
		else if (op == "sectext") {
			cg3_applicator_setoption(o[f[1]], CG3O_SECTIONS_TEXT, const_cast<char*>(f[2].c_str()));
		}
		else if (op == "sent") {
			o[f[1]] = cg3_sentence_new(o[f[2]]);
		}
		else if (op == "coh") {
			// coh ID sentence app enc wordform
			o[f[1]] = cg3_cohort_create(o[f[2]]);
			cg3_cohort_setwordform(o[f[1]], mk(o[f[3]], f[4], f[5]));
		}
		else if (op == "dep") {
			cg3_cohort_setdependency(o[f[1]], uint32_t(stoul(f[2])), uint32_t(stoul(f[3])));
		}
		else if (op == "getdep") {
			uint32_t a = 0, b = 0;
			cg3_cohort_getdependency(o[f[1]], &a, &b);
			cout << "dep\t" << a << '\t' << b << '\n';
		}
		else if (op == "rd") {
			o[f[1]] = cg3_reading_create(o[f[2]]);
		}
		else if (op == "sub") {
			// sub ID reading
			o[f[1]] = cg3_subreading_create(o[f[2]]);
		}
		else if (op == "setsub") {
			cg3_reading_setsubreading(o[f[1]], o[f[2]]);
		}
		else if (op == "tag") {
			// tag reading app enc text
			if (!cg3_reading_addtag(o[f[1]], mk(o[f[2]], f[3], f[4]))) {
				cout << "refused\n";
			}
		}
		else if (op == "addrd") {
			cg3_cohort_addreading(o[f[1]], o[f[2]]);
		}
		else if (op == "addcoh") {
			cg3_sentence_addcohort(o[f[1]], o[f[2]]);
		}
		else if (op == "run") {
			cg3_sentence_runrules(o[f[1]], o[f[2]]);
		}
		else if (op == "copy") {
			o[f[1]] = cg3_sentence_copy(o[f[2]], o[f[3]]);
		}
		else if (op == "dump") {
			cout << "dump\t" << f[2] << '\n';
			for (size_t i = 0; i < cg3_sentence_numcohorts(o[f[1]]); ++i) {
				auto c = cg3_sentence_getcohort(o[f[1]], i);
				uint32_t a = 0, b = 0;
				cg3_cohort_getdependency(c, &a, &b);
				cout << "C\t" << text(cg3_cohort_getwordform(c)) << '\t' << cg3_cohort_getid(c) << '\t' << a << '\t' << b << '\n';
				for (size_t k = 0; k < cg3_cohort_numreadings(c); ++k) {
					dump(cg3_cohort_getreading(c, k), false);
				}
				for (size_t k = 0; k < cg3_cohort_numdelreadings(c); ++k) {
					dump(cg3_cohort_getdelreading(c, k), true);
				}
			}
			cout << "end\n";
		}
		else if (op == "text") {
			cout << "text\t" << text(mk(o[f[1]], f[2], f[3])) << '\n';
		}
		else if (op == "freesent") {
			cg3_sentence_free(o[f[1]]);
		}
		else if (op == "freecoh") {
			cg3_cohort_free(o[f[1]]);
		}
		else if (op == "freerd") {
			cg3_reading_free(o[f[1]]);
		}
		else if (op == "freeapp") {
			cg3_applicator_free(o[f[1]]);
		}
		else if (op == "freegram") {
			cg3_grammar_free(o[f[1]]);
		}
		else if (op == "fns") {
			cg3_run_grammar_on_text_fns(o[f[1]], f[2].c_str(), f[3].c_str());
		}
		else if (op == "buf") {
			string s = slurp(f[2]);
			vector<char> out(stoul(f[4]));
			size_t n = cg3_run_grammar_on_buffer(o[f[1]], s.data(), s.size(), out.data(), out.size());
			ofstream(f[3], ios::binary).write(out.data(), streamsize(n));
		}
		else {
			cerr << "no such call: " << op << '\n';
			return 4;
		}
		if (f.size() > 1 && o.count(f[1]) && o[f[1]] == nullptr) {
			cerr << "call gave nothing: " << line << '\n';
			return 5;
		}
		cout.flush();
	}
	return 0;
}
